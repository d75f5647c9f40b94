"""C26  multi-objective BO: what is reported is remembered, and the efficient set is the one of the objectives"""
import numpy as np

import bayes_optim.base as base_mod
import bayes_optim.mobo as mobo_mod
from bayes_optim.mobo import MOBO
from bayes_optim.search_space import RealSpace
from bayes_optim.solution import Solution
from engine import sym
from engine.case import Suite
from harness.bo import NAMES, as_dict, mixed_space, point
from harness.c32 import part, sqrt, strips
from harness.lib import same_val

SUITE = Suite("C26", bounds=["one to three calls of tell with one or two points each, two objectives (three in one case), arbitrary objective values in [-50, 50], any combination of minimised and maximised objectives",
                             "failed evaluations (NaN, inf) of any objective at any position"],
              outside=["n_point > 1 and MOBO_qEHVI (not implemented upstream)", "warm data", "float32 rounding of tensors", "expensive constraint values (unused)"],
              assumptions=["surrogate model replaced by one that records what it is fitted to; r2 and MSE, which are only logged, are constants",
                           "sklearn's MinMaxScaler is modelled by its definition", "argmax_restart (C19) replaced by one returning an arbitrary point"])


class Scaler:
    """MinMaxScaler on (0, 1)"""

    def fit(self, X):
        X = np.asarray(X)
        if not len(X):
            raise ValueError("Found array with 0 sample(s)")
        lo, hi = np.min(X, axis=0), np.max(X, axis=0)
        self.scale_ = np.array([1.0 if bool(h == l) else 1.0 / (h - l) for l, h in zip(lo, hi)], dtype=object)
        self.data_min_, self.data_max_, self.data_range_, self.min_ = lo, hi, hi - lo, -lo * self.scale_
        return self

    def transform(self, X):
        return (np.asarray(X) - self.data_min_) * self.scale_

    def fit_transform(self, X):
        return self.fit(X).transform(X)


class Model:
    def __init__(self, m, mean=None, var=None):
        self.m, self.is_fitted, self.fits, self.mean, self.var, self.seen = m, False, [], mean, var, []

    def fit(self, X, y):
        self.fits.append(([list(r) for r in np.atleast_2d(X).tolist()], [list(r) for r in np.asarray(y).tolist()]))
        self.is_fitted = True

    def predict(self, X, eval_MSE=False):
        n = len(np.atleast_2d(X))
        if eval_MSE:
            self.seen.append(np.atleast_2d(np.asarray(X, dtype=object)).tolist())
        f = lambda v, d: np.array([list(v)] * n if v is not None else [[d] * self.m] * n, dtype=object if v is not None and any(sym.is_sym(x) for x in v) else float)
        y = f(self.mean, 0.0)
        return (y, f(self.var, 1.0)) if eval_MSE else y


def make(ctx, m=2, space=None, model=None, **kw):
    n = lambda *a, **k: np.zeros(m)
    ctx.patch(mobo_mod, "r2_score", n)
    ctx.patch(mobo_mod, "mean_squared_error", n)
    if ctx.symbolic:
        ctx.patch(mobo_mod, "MinMaxScaler", Scaler)
    return MOBO(search_space=space if space is not None else mixed_space(), n_obj=m, model=model or Model(m), **{"DoE_size": 2, "max_FEs": 20, **kw})


def better(ctx, a, b, mins):
    """a dominates b"""
    ge = [x <= y if mn else x >= y for x, y, mn in zip(a, b, mins)]
    return ctx.all(ge + [ctx.neg(ctx.all([ctx.eq(x, y) for x, y in zip(a, b)]))])


def check_state(ctx, opt, rows, ys, told, calls, hist, mins, label="after tell"):
    m = len(mins)
    D = opt.data
    got = D.tolist() if D.ndim == 2 else [D.tolist()]
    ctx.check(len(got) == len(rows) and ctx.all([same_val(ctx, a, b) for g, w in zip(got, rows) for a, b in zip(g, w)]), label + ": data")
    f = np.asarray(D.fitness)
    ctx.check(f.shape == (len(ys), m) and ctx.all([a == b for g, w in zip(f.tolist(), ys) for a, b in zip(g, w)]), label + ": fitness")
    ctx.check(len(D.n_eval) == len(ys) and ctx.all([n == 1 for n in np.ravel(D.n_eval)]), label + ": n_eval")
    ctx.check(opt.eval_count == told * m, label + ": one evaluation counted per objective")
    ctx.check(opt.iter_count == calls and len(opt.hist_f) == hist, label + ": iter_count")
    front(ctx, opt.xopt, rows, ys, mins)
    h = np.asarray(opt.hist_f[-1]).tolist()
    fx = np.asarray(opt.xopt.fitness).tolist()
    ctx.check(len(h) == len(fx) and ctx.all([a == b for g, w in zip(h, fx) for a, b in zip(g, w)]), label + ": history of the efficient sets")
    # the model
    X, Y = opt.model.fits[-1]
    ctx.check(len(X) == len(rows) and ctx.all([same_val(ctx, a, b) for g, w in zip(X, rows) for a, b in zip(g, w)]), label + ": model inputs")
    ctx.check(np.shape(Y) == (len(ys), m), label + ": model outputs")
    for i in range(len(ys)):
        for j in range(len(ys)):
            for k in range(m):
                if i != j:
                    worse = ys[i][k] > ys[j][k] if mins[k] else ys[i][k] < ys[j][k]
                    ctx.check(ctx.implies(worse, Y[i][k] < Y[j][k]), label + ": the model gets every objective to be maximised")
                if i < j:
                    ctx.check(ctx.implies(ys[i][k] == ys[j][k], ctx.eq(Y[i][k], Y[j][k])), label + ": the model gets equal values for equal values")


def front(ctx, xo, rows, ys, mins):
    P, F = (xo.tolist(), np.asarray(xo.fitness).tolist()) if xo.ndim == 2 else ([xo.tolist()], [np.ravel(xo.fitness).tolist()])
    ctx.check(len(P) == len(F) and len(P) > 0, "xopt: values and points")
    for p, f in zip(P, F):
        ctx.check(ctx.any([ctx.all([ctx.eq(a, b) for a, b in zip(f, y)] + [same_val(ctx, a, b) for a, b in zip(p, r)]) for r, y in zip(rows, ys)]),
                  "xopt: every member is an evaluated point with its values")
        ctx.check(ctx.all([ctx.neg(better(ctx, y, f, mins)) for y in ys]), "xopt: no member is dominated")
    for i, y in enumerate(ys):
        ctx.check(ctx.any([better(ctx, z, y, mins) for k, z in enumerate(ys) if k != i] + [ctx.all([ctx.eq(a, b) for a, b in zip(f, y)]) for f in F]),
                  "xopt: every efficient value is represented")


def values(ctx, t, n, m, bad=()):
    out = []
    for i in range(n):
        b = ctx.choice(f"{t}.bad{i}", bad) if bad else None
        out.append([float(b[1]) if b and b[0] == j else ctx.real(f"{t}.y{i}{j}", -50, 50) for j in range(m)])
    return out


def ok(y):
    return all(sym.is_sym(v) or np.isfinite(v) for v in y)


BAD = (None, (0, "nan"), (1, "inf"), (1, "nan"))


def tell_case(mode, sizes, mins, bad=None, given=None, **o):
    def fn(ctx):
        m = len(mins)
        arg = given if given is not None else list(mins)
        opt = make(ctx, m, eval_type="dict" if mode == "dict" else "list", minimize=arg)
        rows, ys, told, hist = [], [], 0, 0
        for c, n in enumerate(sizes):
            P = [point(ctx, f"p{c}{i}", ("A", "B") if (c + i) % 2 else ("C",)) for i in range(n)]
            Y = values(ctx, f"c{c}", n, m, BAD if bad and c in bad else ())
            if mode == "dict":
                X = [as_dict(p, ctx.choice(f"o{c}{i}", (NAMES, ("b", "d", "r", "i")))) for i, p in enumerate(P)]
            elif mode == "solution":
                X = Solution([list(p) for p in P], var_name=list(NAMES), n_obj=m)
            else:
                X = [list(p) for p in P]
            kept = [list(y) for y in Y]
            opt.tell(X, [tuple(y) for y in Y] if c % 2 else Y)
            ctx.check(ctx.all([ctx.eq(a, b) if ok([a]) else str(a) == str(b) for g, w in zip(kept, Y) for a, b in zip(g, w)]), "the values passed in are not modified")
            told += n
            rows += [p for p, v in zip(P, Y) if ok(v)]
            ys += [v for v in Y if ok(v)]
            if rows:
                hist += 1
                check_state(ctx, opt, rows, ys, told, c + 1, hist, mins)
            else:
                ctx.check(ctx.all([opt.eval_count == told * m, opt.iter_count == c + 1]), "failed evaluations are counted")
                ctx.check(opt.xopt is None, "no efficient set without a successful evaluation")

    SUITE.add(f"tell({mode}, batches {sizes}, minimize {given if given is not None else mins}{', failures' if bad else ''})", fn, signs=True, **o)


T, F_ = True, False
tell_case("list", (2,), (T, T), given=True)
tell_case("list", (2,), (F_, F_), given=False)
tell_case("list", (2,), (T, F_))
tell_case("list", (1, 1), (F_, T))
tell_case("dict", (2,), (T, F_))
tell_case("solution", (1, 1), (T, T), given=True)
tell_case("list", (3,), (T, F_), tiers=("thorough",))
tell_case("list", (2, 1), (T, T), tiers=("thorough",))
tell_case("list", (2,), (T, F_, T))
tell_case("list", (2,), (T, F_), bad=(0,))
tell_case("list", (1, 1), (T, F_), bad=(0, 1))
tell_case("list", (1, 2, 1), (T, F_), bad=(1,), tiers=("thorough",))
tell_case("dict", (2, 1), (F_, T), bad=(0,), tiers=("thorough",))


def evaluate_case(kind):
    def fn(ctx):
        """every objective is evaluated once at every point; the values come point by point"""
        n, m = 2, 2
        V = [[ctx.real(f"v{i}{j}", -50, 50) for j in range(m)] for i in range(n)]
        P = [[ctx.real(f"x{i}{j}", -5, 5) for j in range(2)] for i in range(n)]
        calls = [[], []]

        def f(j):
            def g(x):
                calls[j].append(x)
                return V[len(calls[j]) - 1][j]
            return g

        opt = make(ctx, 2, RealSpace([[-5, 5], [-5, 5]], var_name=["a", "b"]), obj_fun=(f(0), f(1)), eval_type=kind)
        X = [dict(zip("ab", p)) for p in P] if kind == "dict" else [list(p) for p in P]
        out = opt.evaluate(X)
        ctx.check(len(out) == n and all(len(o) == m for o in out), "one vector of values per point")
        ctx.check(ctx.all([a == b for o, v in zip(out, V) for a, b in zip(o, v)]), "the values are those of the point, in the order of the objectives")
        for c in calls:
            ctx.check(len(c) == n, "each objective is evaluated once per point")
            for x, p in zip(c, P):
                q = [x["a"], x["b"]] if kind == "dict" else list(x)
                ctx.check(ctx.all([a == b for a, b in zip(q, p)]), "the objectives get the point")

    SUITE.add(f"evaluate({kind})", fn)


evaluate_case("list")
evaluate_case("dict")


class Inner:
    """argmax_restart: remembers the criterion and the space, returns the given point"""

    def __init__(self, ctx, x):
        self.calls, self.x = [], x
        ctx.patch(base_mod, "argmax_restart", self)

    def __call__(self, obj_func, search_space=None, *a, **k):
        self.calls.append((obj_func, search_space, k))
        return list(self.x), 1.0


def criterion_case(n, mins, fixed, **o):
    def fn(ctx):
        """the inner optimiser maximises the EHVI over the current front"""
        mu = [ctx.real(f"mu{j}", -3, 3) for j in range(2)]
        var = [ctx.real(f"v{j}", 0.01, 4) for j in range(2)]
        x = [ctx.real("x0", 0, 5)] + ([] if fixed else [ctx.real("x1", -5, 5)])
        I = Inner(ctx, x)
        model = Model(2, mu, var)
        if mins[0] is False:
            model.gradient = lambda x: (np.zeros((2, 1)), np.zeros((2, 1)))
        opt = make(ctx, 2, RealSpace([[-5, 5], [-5, 5]], var_name=["a", "b"]), model, minimize=list(mins))
        Y = [[0.0, 10.0], [4.0, 0.0], [1.0, 3.0]][:n]
        Y[-1] = [ctx.real("y0", 0.5, 3.5), ctx.real("y1", 1.0, 9.0)]
        opt.tell([[-4.0 + i, -4.5] for i in range(n)], Y)
        if ctx.symbolic:
            sd = [sym.cur().sqrt(v) for v in var]
            ctx.user["far"] = [(1e8 - a) / s for a, s in zip(mu, sd)] + [(1e10 - a) / s for a, s in zip(mu, sd)]
        else:
            sd = [sqrt(v) for v in var]
        fx = {"b": ctx.real("fix", -5, 5)} if fixed else None
        out = opt.ask(1, fixed=fx)
        ctx.check(len(out) == 1 and ctx.all([ctx.eq(a, b) for a, b in zip(out[0], x + ([fx["b"]] if fixed else []))]), "the point found is proposed")
        ctx.check(len(I.calls) == 1, "one criterion for one point")
        crit, space, kw = I.calls[0]
        ctx.check(list(space.var_name) == (["a"] if fixed else ["a", "b"]), "the search is over the free variables")
        q = [1.5] if fixed else [1.5, 2.0]
        opt.model.seen.clear()
        ctx.check(kw.get("optimizer") != "BFGS", "the inner optimiser needs no gradient")
        got = np.asarray(crit(q)).ravel()
        ctx.check(len(got) == 1, "one value for one candidate")
        ref = list(np.asarray(opt.ref_point))
        Z = [list(r) for r in np.asarray(opt.y)]
        want = 0.0
        for l, u in strips(Z, ref):
            v = 1.0
            for j in range(2):
                v = v * part(l[j], u[j], mu[j], sd[j])
            want = want + v
        ctx.check_near(got[0], want, "the criterion is the expected hypervolume improvement over the current front", tol=2e-3)
        s = opt.model.seen
        full = [1.5, fx["b"]] if fixed else [1.5, 2.0]
        ctx.check(len(s) == 1 and ctx.all([ctx.eq(a, b) for a, b in zip(s[0][0], full)]), "the model is asked for the full candidate")

    SUITE.add(f"criterion({n} points, minimize {mins}{', one variable fixed' if fixed else ''})", fn, signs=True, uf_free=True, **o)


criterion_case(2, (T, T), False)
criterion_case(2, (F_, T), True)
criterion_case(3, (T, F_), False)


@SUITE.case()
def ask_and_run(ctx):
    """points proposed are evaluated, counted and told until the budget is spent"""
    V = [[0.0, ctx.real("v01", -50, 50)], [1.0, 2.0], [ctx.real(f"v2{j}", -50, 50) for j in range(2)]]
    x = [ctx.real("x0", -3, 2), ctx.real("x1", -5, 5)]
    Inner(ctx, x)
    seen = []

    def f0(p):
        seen.append(list(p))
        return V[(len(seen) - 1) % 3][0]

    cnt = [0]

    def f1(p):
        cnt[0] += 1
        return V[(cnt[0] - 1) % 3][1]

    D = [[-4.0, 1.0], [3.0, 2.0]]
    opt = make(ctx, 2, RealSpace([[-5, 5], [-5, 5]], var_name=["a", "b"]), obj_fun=(f0, f1), max_FEs=6, minimize=[True, False])
    ctx.patch(opt, "create_DoE", lambda n, **k: [list(d) for d in D])
    opt.run()
    ctx.check(len(seen) == 3 and cnt[0] == 3, "the evaluations made are those of the budget")
    ctx.check(ctx.all([ctx.eq(a, b) for g, w in zip(seen, D + [x]) for a, b in zip(g, w)]), "the points proposed are evaluated")
    check_state(ctx, opt, D + [x], V, 3, 2, 2, (True, False), "after run")


@SUITE.case()
def constraint_penalty(ctx):
    """constraints do not change the bookkeeping"""
    g = ctx.real("g", -3, 3)
    opt = make(ctx, 2, ineq_fun=lambda p: [g], minimize=True)
    P = [point(ctx, f"p{i}", ("A", "B") if i else ("C",)) for i in range(2)]
    Y = values(ctx, "c", 2, 2)
    opt.tell([list(p) for p in P], Y)
    check_state(ctx, opt, P, Y, 2, 1, 1, (True, True))
