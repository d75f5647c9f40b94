"""C25  PCA-BO: the reduced space, the penalty and the bookkeeping belong to the original problem"""
import numpy as np
from sklearn.decomposition import PCA

import bayes_optim.base as base_mod
import bayes_optim.extension as ext_mod
from bayes_optim.extension import PCABO, LinearTransform, penalized_acquisition
from bayes_optim.search_space import RealSpace
from engine import sym
from engine.case import Suite
from engine.rt import objarr

SUITE = Suite("C25", bounds=["two variables, two or three points, one or two components; every orthonormal set of principal axes; arbitrary points, bounds, weights' order and objective values in [-20, 20]"],
              outside=["more variables", "constraints (evaluated in the reduced space upstream)", "eval_type='dict' (unsupported upstream)", "a single point in all (no axes)"],
              assumptions=["sklearn's PCA.fit returns the mean of the points and some orthonormal axes", "the Gaussian process is replaced by a model recording what it is fitted to"])


def num(a):
    a = objarr(a)
    return a if any(sym.is_sym(v) for v in a.flat) else a.astype(float)


def axes(ctx, k, fixed=False):
    """k orthonormal axes of the plane; rational parametrisation"""
    if fixed:
        return [[0.6, 0.8], [-0.8, 0.6]][:k]
    t = ctx.real("t", -3, 3)
    d = 1 + t * t
    c, s = (1 - t * t) / d, 2 * t / d
    if ctx.symbolic:
        C, S = ctx.user["c"], ctx.user["s"] = sym.cur().real("c.axis", -1, 1), sym.cur().real("s.axis", -1, 1)
        ctx.assume(ctx.all([C * d == 1 - t * t, S * d == 2 * t, C * C + S * S == 1]))
        c, s = C, S
    e = ctx.choice("orientation", (1, -1)) if k > 1 else 1
    return [[c, s], [-e * s, e * c]][:k]


class FakePCA:
    def __init__(self, ctx, k, fixed=False):
        self.axes, self.fitted = axes(ctx, k, fixed), []
        me = self

        def fit(obj, X, y=None):
            X = num(X)
            me.fitted.append(X)
            obj.mean_ = num(sum(X[i] for i in range(len(X))) / len(X))
            obj.components_ = num(me.axes[: len(X)])
            obj.n_components_ = len(obj.components_)
            return obj

        ctx.patch(PCA, "fit", fit)
        ctx.patch(PCA, "transform", lambda obj, X: num((num(X) - obj.mean_).dot(obj.components_.T)))
        ctx.patch(PCA, "inverse_transform", lambda obj, X: num(num(X).dot(obj.components_) + obj.mean_))


def pts(ctx, n, t="x", lo=-5, hi=5):
    return [[ctx.real(f"{t}{i}{j}", lo, hi) for j in range(2)] for i in range(n)]


def eqv(ctx, a, b, label, tol=1e-6):
    a, b = objarr(a), objarr(b)
    ctx.check(a.shape == b.shape, label + " (shape)")
    for x, y in zip(a.ravel(), b.ravel()):
        ctx.check_near(x, y, label, tol=tol)


def weights_case(n, **o):
    def fn(ctx):
        """the axes are those of the centred points weighted by rank, better points more"""
        mn = ctx.choice("minimize", (True, False))
        F = FakePCA(ctx, 2)
        X, y = pts(ctx, n), [ctx.real(f"y{i}", -20, 20) for i in range(n)]
        T = LinearTransform(minimize=mn, svd_solver="full")
        Xn, yn = num(X), num(y)
        T.fit(Xn, yn)
        r = []
        for i in range(n):  # 1 = best, ties share
            b = sum(bool(y[j] < y[i]) if mn else bool(y[j] > y[i]) for j in range(n))
            e = sum(bool(ctx.eq(y[j], y[i])) for j in range(n))
            r.append(b + (e + 1) / 2)
        w = [np.log(n) - np.log(v) for v in r]
        w = [v / sum(w) for v in w]
        m = [sum(x[j] for x in X) / n for j in range(2)]
        ctx.check(len(F.fitted) == 1, "one fit")
        eqv(ctx, F.fitted[0], [[(X[i][j] - m[j]) * w[i] for j in range(2)] for i in range(n)], "the points are centred and weighted by rank")
        eqv(ctx, Xn, X, "the points passed in are not modified")

    SUITE.add(f"weights({n} points)", fn, **o)


weights_case(2)
weights_case(3)


def transform_case(k):
    def fn(ctx):
        """transform and inverse_transform are the projection on the axes and back"""
        F = FakePCA(ctx, k)
        T = LinearTransform(minimize=True, n_components=k, svd_solver="full")
        q = pts(ctx, 1, "q")
        eqv(ctx, T.inverse_transform(num(q)), q, "without axes the inverse is the identity")
        X = pts(ctx, 2)
        y = num([1.0, 2.0])
        Z = T.fit_transform(num(X), y) if ctx.choice("how", (0, 1)) else T.fit(num(X), y).transform(num(X))
        ctx.check(np.shape(Z) == (2, k), "one coordinate per axis")
        A = F.axes
        # distances along the axes
        for a in range(k):
            eqv(ctx, [Z[1][a] - Z[0][a]], [sum(A[a][j] * (X[1][j] - X[0][j]) for j in range(2))], "coordinates are those along the axes")
        if k == 2:
            eqv(ctx, T.inverse_transform(Z), X, "mapping back gives the points")
        z = [[ctx.real(f"z{a}", -5, 5) for a in range(k)]]
        eqv(ctx, T.transform(T.inverse_transform(num(z))), z, "a reduced point mapped back and forth is the same")

    SUITE.add(f"transform({k} axes)", fn)


transform_case(1)
transform_case(2)


def setup(ctx, k, cls=PCABO, minimize=True, bounds=((-5, 5), (-5, 5)), fixed=False, **kw):
    F = FakePCA(ctx, k, fixed)
    ctx.patch(ext_mod, "r2_score", lambda *a, **k: 0.0)
    ctx.patch(ext_mod, "mean_absolute_percentage_error", lambda *a, **k: 0.0)
    models = []

    class GP:
        def __init__(self, *a, **k):
            self.is_fitted, self.args, self.fits = False, k, []
            models.append(self)

        def fit(self, X, y):
            self.is_fitted = True
            self.fits.append((objarr(X), objarr(y).ravel()))

        def predict(self, X, eval_MSE=False):
            n = len(np.atleast_2d(X))
            return (np.zeros(n), np.ones(n)) if eval_MSE else np.zeros(n)

    ctx.patch(ext_mod, "GaussianProcess", GP)
    opt = PCABO(search_space=RealSpace([list(b) for b in bounds], var_name=["a", "b"]), n_components=k if k == 1 else None, minimize=minimize, **{"DoE_size": 2, "max_FEs": 10, **kw})
    return opt, F, models


def bounds_case(k, **o):
    def fn(ctx):
        """the reduced box holds the image of every point of the original box"""
        F = FakePCA(ctx, k)
        lo = [ctx.real(f"l{j}", -20, 20) for j in range(2)]
        up = [ctx.real(f"u{j}", -20, 20) for j in range(2)]
        ctx.assume(ctx.all([a < b for a, b in zip(lo, up)]))
        T = LinearTransform(minimize=True, n_components=k, svd_solver="full")
        T.mean_ = num([ctx.real(f"m{j}", -20, 20) for j in range(2)])
        T.center = num([ctx.real(f"c{j}", -20, 20) for j in range(2)])
        T.components_ = num(F.axes)
        space = RealSpace([[a, b] for a, b in zip(lo, up)], var_name=["a", "b"])
        B = PCABO._compute_bounds(T, space)
        ctx.check(len(B) == k, "one interval per axis")
        x = [ctx.real(f"x{j}", -20, 20) for j in range(2)]
        ctx.assume(ctx.all([ctx.all([a <= v, v <= b]) for a, v, b in zip(lo, x, up)]))
        # Cauchy-Schwarz, a fact about reals: (cA + sB)^2 + (cB - sA)^2 = (c^2 + s^2)(A^2 + B^2)
        z = T.transform(num([x]))[0]
        for a in range(k):
            eps = 0 if ctx.symbolic else 1e-9
            ctx.check(ctx.all([B[a][0] <= z[a] + eps, z[a] <= B[a][1] + eps]), "the image of a point of the box is inside the reduced box")

    SUITE.add(f"reduced box({k} axes)", fn, **o)


bounds_case(1)
bounds_case(2)


def penalty_case(k, dx, **o):
    def fn(ctx):
        """inside the original box the criterion counts, outside the distance to it"""
        F = FakePCA(ctx, k)
        T = LinearTransform(minimize=True, n_components=k, svd_solver="full")
        T.mean_ = num([ctx.real(f"m{j}", -2, 2) for j in range(2)])
        T.center = num([ctx.real(f"c{j}", -2, 2) for j in range(2)])
        T.components_ = num(F.axes)
        z = [ctx.real(f"z{a}", -9, 9) for a in range(k)]
        lo, up = [ctx.real(f"l{j}", -9, 9) for j in range(2)], [ctx.real(f"u{j}", -9, 9) for j in range(2)]
        ctx.assume(ctx.all([a < b for a, b in zip(lo, up)]))
        v, g = ctx.real("value", 0, 9), [[ctx.real(f"g{a}", -9, 9)] for a in range(k)]
        seen = []

        def acq(x):
            seen.append(list(objarr(x).ravel()))
            return (v, num(g)) if dx else v

        # the point in the original space
        X = [T.mean_[j] + T.center[j] + sum(z[a] * F.axes[a][j] for a in range(k)) for j in range(2)]
        below, above = [a - x for a, x in zip(lo, X)], [x - b for x, b in zip(X, up)]
        out = penalized_acquisition(num(z), acq, [[a, b] for a, b in zip(lo, up)], T, dx)
        val, grad = out if dx else (out, None)
        val = objarr(val).ravel()[0]
        isb, isa = [bool(d > 0) for d in below], [bool(d > 0) for d in above]
        if not any(isb + isa):
            ctx.check_near(val, v, "the criterion counts inside the box", tol=1e-6)
            if dx:
                eqv(ctx, objarr(grad).ravel(), [r[0] for r in g], "the gradient of the criterion counts inside the box")
            ctx.check(len(seen) == 1 and ctx.all([ctx.eq(a, b) for a, b in zip(seen[0], z)]), "the criterion gets the reduced point")
        else:
            want = -1.0 * sum([d for d, f in zip(below, isb) if f] + [d for d, f in zip(above, isa) if f])
            ctx.check_near(val, want, "outside, the value is minus the distance to the box", tol=1e-6)
            if dx:
                w = [sum((1.0 if isb[j] else 0.0) * F.axes[a][j] - (1.0 if isa[j] else 0.0) * F.axes[a][j] for j in range(2)) for a in range(k)]
                eqv(ctx, objarr(grad).ravel(), w, "outside, the gradient is the one of the penalty")

    SUITE.add(f"penalty({k} axes, gradient {dx})", fn, **o)


for k in (1, 2):
    for dx in (False, True):
        penalty_case(k, dx)


CO = ((-1.0, 2.0, 0.5), (3.0, -2.5))


def tell_case(sizes, k, mn, bad=(), axes_fixed=False, **o):
    def fn(ctx):
        opt, F, models = setup(ctx, k, minimize=mn, fixed=bool(bad) or axes_fixed)
        X, Y, told = [], [], 0
        for c, n in enumerate(sizes):
            P = [[1.5 * i - c if bad else ctx.real(f"p{c}{i}0", -5, 5), CO[c][i]] for i in range(n)]
            V = [float("nan") if c in bad and ctx.choice(f"bad{c}{i}", (0, 1)) else ctx.real(f"y{c}{i}", -20, 20) for i in range(n)]
            how = ctx.choice(f"how{c}", ("list", "array"))
            opt.tell(num(P) if how == "array" else [list(p) for p in P], V)
            told += n
            X += [p for p, v in zip(P, V) if sym.is_sym(v) or np.isfinite(v)]
            Y += [v for v in V if sym.is_sym(v) or np.isfinite(v)]
            ctx.check(opt.eval_count == told and opt.iter_count == c + 1, "evaluations and iterations are counted")
            if not X:
                ctx.check(opt.xopt is None, "nothing is known without a successful evaluation")
                continue
            D = opt.data
            eqv(ctx, D.tolist(), X, "data")
            eqv(ctx, D.fitness.ravel(), Y, "fitness")
            ctx.check(ctx.all([v == 1 for v in np.ravel(D.n_eval)]), "n_eval")
            xo = opt.xopt
            f = np.ravel(xo.fitness)[0]
            ctx.check(ctx.eq(f, ctx.min(Y) if mn else ctx.max(Y)), "best value")
            ctx.check(ctx.any([ctx.all([ctx.eq(f, y)] + [ctx.eq(a, b) for a, b in zip(xo.tolist(), x)]) for x, y in zip(X, Y)]), "best point")
            Xz, yz = models[-1].fits[-1]
            A, k_ = F.axes, min(k, len(X))
            ctx.check(np.shape(Xz) == (len(X), k_) and len(yz) == len(Y), "the model gets every point and value")
            for i in range(1, len(X)):
                for a in range(k_):
                    ctx.check_near(Xz[i][a] - Xz[0][a], sum(A[a][j] * (X[i][j] - X[0][j]) for j in range(2)), "the model gets the reduced points", tol=1e-5)
                for j in range(i):
                    ctx.check(ctx.all([ctx.implies(Y[i] < Y[j], yz[i] <= yz[j]), ctx.implies(Y[i] > Y[j], yz[i] >= yz[j])]), "the order of the values is kept")
            ctx.check(opt.search_space.dim == k_, "the search goes on in the reduced space")
            ctx.check(ctx.all([opt.fmin == ctx.min(list(yz)), opt.fmax == ctx.max(list(yz))]), "fmin, fmax")

    SUITE.add(f"tell(batches {sizes}, {k} axes, minimize {mn}{', failures' if bad else ''})", fn, **o)


tell_case((2,), 2, True)
tell_case((2,), 1, False)
tell_case((3,), 2, True, bad=(0,))
tell_case((2, 1), 1, True, bad=(1,))
tell_case((1, 1), 2, False, axes_fixed=True)
tell_case((2, 2), 2, False, bad=(0,), tiers=("thorough",))


def ask_case(k, mn, **o):
    def fn(ctx):
        """the initial design lies in the box; later the point found in the reduced space is mapped back"""
        opt, F, models = setup(ctx, k, minimize=mn)
        z = [ctx.real(f"z{a}", -4, 4) for a in range(k)]
        calls = []

        def inner(obj_func, search_space=None, **kw):
            calls.append((obj_func, search_space))
            return list(z), 0.5

        ctx.patch(base_mod, "argmax_restart", inner)
        first = opt.ask()
        ctx.check(len(first) == 2 and ctx.all([ctx.all([-5 <= v, v <= 5]) for x in first for v in x]), "the initial design lies in the box")
        X, y = [[-1.0, 2.0], [3.0, -2.5]], [ctx.real("y0", -20, 20), ctx.real("y1", -20, 20)]
        opt.tell(X, y)
        out = np.asarray(opt.ask(1), dtype=object)
        ctx.check(out.shape == (1, 2), "one point of the original space")
        # where the reduced point lies, relative to a point whose image is known
        Xz = models[-1].fits[-1][0]
        base = X[0] if k == 2 else None
        if k == 2:
            w = [base[j] + sum((z[a] - Xz[0][a]) * F.axes[a][j] for a in range(k)) for j in range(2)]
            eqv(ctx, out[0], w, "the point found is mapped back", tol=1e-5)
        else:
            ctx.check_near(sum(out[0][j] * F.axes[0][j] for j in range(2)), sum(X[0][j] * F.axes[0][j] for j in range(2)) + z[0] - Xz[0][0],
                           "the point found is mapped back", tol=1e-5)
        crit, space = calls[-1]
        ctx.check(space.dim == k, "the search is over the reduced space")
        # the box of the search has the image of the corners
        for p in ([-5, -5], [5, -5], [5, 5], [-5, 5]):
            for a in range(k):
                img = Xz[0][a] + sum(F.axes[a][j] * (p[j] - X[0][j]) for j in range(2))
                l, u = space.bounds[a]
                ctx.check(ctx.all([l <= img + 1e-6, img <= u + 1e-6]), "the search covers the image of the box")

    SUITE.add(f"ask({k} axes, minimize {mn})", fn, **o)


ask_case(2, True)
ask_case(1, False)


@SUITE.case()
def criterion(ctx):
    """the criterion handed to the inner optimiser is the penalised one, for the original box"""
    mn = ctx.choice("minimize", (True, False))
    opt, F, models = setup(ctx, 2, minimize=mn)
    calls = []
    ctx.patch(base_mod, "argmax_restart", lambda f, search_space=None, **kw: (calls.append(f), ([0.0, 0.0], 0.5))[1])
    opt.tell([[-1.0, 2.0], [3.0, -2.5]], [1.0, 2.0])
    made = []

    class Crit:
        plugin = None

        def __init__(self, **par):
            made.append(par)

        def __call__(self, x, return_dx=False):
            return 7.0

    ctx.patch(ext_mod.AcquisitionFunction, "EI", Crit)
    opt.ask(1)
    ctx.check(len(calls) == 1 and len(made) == 1, "one criterion")
    ctx.check(made[0]["model"] is models[-1] and made[0]["minimize"] == mn, "the criterion is the one of the current model")
    ctx.check(ctx.eq(made[0]["plugin"], opt.fmin if mn else opt.fmax), "the criterion has the best value so far")
    z = [ctx.real(f"z{a}", -12, 12) for a in range(2)]
    Xz = models[-1].fits[-1][0]
    X = [(-1.0, 2.0)[j] + sum((z[a] - Xz[0][a]) * F.axes[a][j] for a in range(2)) for j in range(2)]
    v = objarr(calls[0](num(z))).ravel()[0]
    d = [ctx.max([x - 5, -5 - x, 0.0]) for x in X]
    inside = ctx.all([t == 0 for t in d])
    want = ctx.ite(inside, 7.0, -1.0 * (d[0] + d[1]))
    ctx.check_near(v, want, "the criterion inside the original box, minus the distance outside", tol=1e-5)
