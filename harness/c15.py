"""C15  the Gaussian process predicts by its kernel, interpolates its data, and its derivatives belong to it"""
import numpy as np

import bayes_optim.surrogate.gaussian_process.gpr as gpr_mod
from bayes_optim.surrogate.gaussian_process import kernel as K
from bayes_optim.surrogate.gaussian_process import trend as T
from bayes_optim.surrogate.gaussian_process.gpr import GaussianProcess, l1_cross_distances
from engine import sym
from engine.case import Suite

SUITE = Suite("C15", bounds=["kernels: one or two distances with one or two variables, arbitrary values and parameters",
                             "models: one or two training points with one or two variables, arbitrary observations, correlations and kernel parameters, one prediction point; with two training points quick checks take two values of their correlation, and variance and likelihood checks (and predictions with estimated noise) two sets of observations"],
              outside=["the search of L-BFGS-B for the best kernel parameters", "hyper-parameter optimisation by CMA-ES (does not run upstream)",
                       "gradients of the kernels that have none (cubic, generalised exponential)", "Matern kernels of other orders than 1/2, 3/2, 5/2"],
              assumptions=["exp, log and square roots are functions with their usual inequalities", "sklearn's array validation is the identity on valid arrays"])
R3, R5 = 3 ** 0.5, 5 ** 0.5


def exp(x):
    return sym.fn1("exp", x) if sym.is_sym(x) else float(np.exp(x))


def sq(x):
    return sym.fn1("sqrt", x) if sym.is_sym(x) else float(np.sqrt(x))


def log(x):
    return sym.fn1("log", x) if sym.is_sym(x) else float(np.log(x))


def arr(ctx, v):
    return np.array(v, dtype=object if ctx.symbolic else float)


def corr(ctx, kind, theta, d, nu=1.5, p=None):
    """the correlation of two points with componentwise differences d"""
    d = [ctx.abs(v) for v in d]
    th = list(theta) * (len(d) if len(theta) == 1 else 1)
    if kind == "absolute_exponential":
        return exp(-sum(t * v for t, v in zip(th, d)))
    if kind == "squared_exponential":
        return exp(-sum(t * v * v for t, v in zip(th, d)))
    if kind == "matern":
        D = sq(sum(t * v * v for t, v in zip(th, d)))
        return exp(-D) if nu == 0.5 else (1 + R3 * D) * exp(-R3 * D) if nu == 1.5 else (1 + R5 * D + 5 * D * D / 3) * exp(-R5 * D)
    if kind == "cubic":
        out = 1
        for t, v in zip(th, d):
            z = ctx.ite(t * v > 1, 1, t * v)
            out = out * (1 - 3 * z * z + 2 * z * z * z)
        return out
    raise ValueError(kind)


def kernel_case(kind, nf, iso=False, n=1, nu=None):
    def fn(ctx):
        th = [ctx.real(f"theta{i}", 0.01, 10) for i in range(1 if iso else nf)]
        d = [[ctx.real(f"d{i}.{j}", -3, 3) for j in range(nf)] for i in range(n)]
        f = getattr(K, kind)
        A, t = arr(ctx, d), arr(ctx, th)
        kw = {} if nu is None else {"nu": nu}
        r = f(t, A, **kw)
        ctx.check(np.shape(r) == (n,), "one value per pair of points")
        ctx.check(ctx.all([a == b for a, b in zip(A.ravel(), [v for row in d for v in row])] + [a == b for a, b in zip(t, th)]), "the arguments are kept")
        for row, v in zip(d, r):
            ctx.check_near(v, corr(ctx, kind, th, row, nu or 1.5), "the kernel", 1e-9)
            ctx.check(ctx.implies(ctx.all([x == 0 for x in row]), v == 1), "one at distance zero")
            ctx.check_le(0, v, "not negative")
        if kind != "matern":
            ctx.check_le(r[0], 1, "at most one")
        ctx.observe("r", list(r))

    fn.__doc__ = f"{kind}{'' if nu is None else nu}: {n} pairs, {nf} variables{', one parameter' if iso else ''}"
    return fn


for k in ("absolute_exponential", "squared_exponential", "cubic"):
    SUITE.add(f"kernel-{k}-1", kernel_case(k, 1, n=2), time_s=40)
    SUITE.add(f"kernel-{k}-2", kernel_case(k, 2), time_s=40)
    SUITE.add(f"kernel-{k}-iso", kernel_case(k, 2, True), time_s=40)
for nu in (0.5, 1.5, 2.5):
    SUITE.add(f"kernel-matern{nu}-2", kernel_case("matern", 2, nu=nu), time_s=40)
    SUITE.add(f"kernel-matern{nu}-iso", kernel_case("matern", 2, True, nu=nu), time_s=40)
SUITE.add("kernel-matern-default", kernel_case("matern", 1, n=2), time_s=40)


@SUITE.case(time_s=40)
def kernel_generalized(ctx):
    """generalised exponential and pure nugget"""
    p = ctx.choice("p", (1.0, 2.0))
    iso = ctx.choice("iso", (True, False))
    nf = ctx.choice("nf", (1, 2))
    th = [ctx.real(f"theta{i}", 0.01, 10) for i in range(1 if iso else nf)]
    d = [[ctx.real(f"d{j}", -3, 3) for j in range(nf)]]
    r = K.generalized_exponential(arr(ctx, th + [p]), arr(ctx, d))
    ctx.check(np.shape(r) == (1,), "one value per pair of points")
    ctx.check_near(r[0], corr(ctx, "absolute_exponential" if p == 1 else "squared_exponential", th, d[0]), "the kernel", 1e-9)
    q = K.pure_nugget(None, arr(ctx, d + [[0.0] * nf]))
    ctx.check(ctx.all([q[0] == ctx.ite(ctx.all([v == 0 for v in d[0]]), 1, 0), q[1] == 1]), "nugget")


@SUITE.case(time_s=40)
def distances(ctx):
    """componentwise distances between all pairs of points"""
    n, m, nf = ctx.choice("shape", ((3, 2, 1), (2, 2, 2), (1, 3, 2)))
    X = [[ctx.real(f"x{i}.{j}", -5, 5) for j in range(nf)] for i in range(n)]
    Y = [[ctx.real(f"y{i}.{j}", -5, 5) for j in range(nf)] for i in range(m)]
    validation(ctx)
    A, B = arr(ctx, X), arr(ctx, Y)
    D = l1_cross_distances(A, B)
    ctx.check(np.shape(D) == (n * m, nf), "one row per pair")
    ctx.check(ctx.all([D[i * m + k, j] == ctx.abs(X[i][j] - Y[k][j]) for i in range(n) for k in range(m) for j in range(nf)]), "distances to other points")
    D, ij = l1_cross_distances(A)
    ctx.check([tuple(int(v) for v in r) for r in ij] == [(i, k) for i in range(n) for k in range(i + 1, n)], "pairs")
    ctx.check(ctx.all([D[t, j] == ctx.abs(X[i][j] - X[k][j]) for t, (i, k) in enumerate(ij) for j in range(nf)]), "distances among the points")
    ctx.check(ctx.all([a == b for a, b in zip(A.ravel(), [v for r in X for v in r])]), "the points are kept")


def validation(ctx):
    if ctx.symbolic:
        ctx.patch(gpr_mod, "check_array", lambda X, **k: np.asarray(X, dtype=object))
        ctx.patch(gpr_mod, "check_X_y", lambda X, y, **k: (np.asarray(X, dtype=object), np.asarray(y, dtype=object)))


def one(v):
    a = np.asarray(v, dtype=object).ravel()
    assert len(a) == 1, a
    return a[0]


class Table:
    """an arbitrary kernel: the correlation of any two of the points is an unknown number"""

    def __init__(self, ctx, pts, n, c):
        self.pts = pts
        self.v = {}
        for i in range(len(pts)):
            for j in range(i):
                k = self.key([a - b for a, b in zip(pts[i], pts[j])])
                if k not in self.v:
                    self.v[k] = 1.0 if not any(k) else ctx.choice("c", c) if i < n and c else ctx.real(f"r{i}{j}", 0.05, 0.95)

    def key(self, d):
        return tuple(round(abs(float(v)), 9) for v in d)

    def at(self, p, q):
        return self.v[self.key([a - b for a, b in zip(p, q)])] if p != q else 1.0

    def __call__(self, theta, D):
        out = [1.0 if not any(self.key(d)) else self.v[self.key(d)] for d in np.asarray(D)]
        return np.array(out, dtype=object if any(sym.is_sym(v) for v in out) else float)


def model(ctx, kind, X, y, theta, mean=None, mode="noiseless", par=(), nugget=0, kernel=None):
    """a fitted model with the given parameters: everything but the search for the best parameters is the code's own"""
    validation(ctx)
    nf = len(X[0])
    gp = GaussianProcess(mean=mean, corr=kernel or kind, thetaL=[1e-3] * nf, thetaU=[1e3] * nf, nugget=nugget, noise_estim=mode == "noise_estim", random_state=1)
    gp.corr_type = kind
    ctx.check(gp.estimation_mode == mode, "estimation mode")

    def search():
        env = {}
        gp.log_likelihood_concentrated(arr(ctx, list(theta) + list(par)), env)
        ctx.assume(len(env) > 0)  # parameters with a valid likelihood
        return {"theta": arr(ctx, list(theta))}, -1.0, env

    gp._optimize_hyperparameter = search
    gp.fit(arr(ctx, X), arr(ctx, y))
    return gp


def dcorr(ctx, kind, theta, diff, r, k):
    """derivative of the correlation r with respect to coordinate k of the point"""
    if kind == "squared_exponential":
        return -2 * theta[k] * diff[k] * r
    if kind == "absolute_exponential":
        return -theta[k] * (1 if diff[k] > 0 else -1) * r
    D = sq(sum(t * v * v for t, v in zip(theta, diff)))
    return -3 * theta[k] * diff[k] * exp(-R3 * D)


POINTS = {1: [[0.25], [1.5], [2.0]], 2: [[0.25, -1.0], [1.5, 0.5], [0.5, 2.0]]}


def setting(ctx, kind, n, nf, ordinary, mode, at=None, deep=False, obs=True):
    th = [ctx.real(f"theta{i}", 0.1, 4) for i in range(nf)]
    X = POINTS[nf][:n]
    x = X[at] if at is not None else POINTS[nf][2]
    if obs:
        y = [ctx.real(f"y{i}", -3, 3) for i in range(n)]
        m = None if ordinary else ctx.real("beta", -2, 2)
        ctx.assume(ctx.abs(y[0] - (y[1] if n == 2 else m)) >= 0.25)
    else:
        y = list(ctx.choice("obs", ((1.5, -0.75), (0.25, 2.0))))[:n]
        m = None if ordinary else 0.5
    par, nug = (), 0
    if mode == "noisy":
        par, nug = (ctx.real("s2", 0.1, 2) if n == 1 else ctx.choice("s2", (0.5, 2.0)),), 0.5
        ctx.user["s2"] = par[0]
    elif mode == "noise_estim":
        par = (ctx.real("alpha", 0.2, 0.9) if n == 1 else ctx.choice("alpha", (0.5, 0.75)),)
        ctx.user["alpha"] = par[0]
    tab = Table(ctx, X + [POINTS[nf][2]], n, None if deep else (0.6, 0.8))
    gp = model(ctx, kind, X, y, th, T.constant_trend(nf, beta=m), mode, par, nug, tab)
    return gp, th, X, y, m, x, tab


def posterior(n, nf, ordinary=False, mode="noiseless", deep=False):
    def fn(ctx):
        gp, th, X, y, m, x, tab = setting(ctx, "squared_exponential", n, nf, ordinary, mode, None, deep, mode != "noise_estim" or n == 1)
        yh = gp.predict(arr(ctx, [x]))
        r = [tab.at(x, p) for p in X]
        if mode != "noiseless":
            s2, nv = one(gp.sigma2), one(gp.noise_var)
            if mode == "noisy":
                ctx.check_near(s2, ctx.user["s2"], "the variance of the process", 1e-9)
                ctx.check_near(nv, 0.5, "the variance of the noise", 1e-9)
            else:
                a = ctx.user["alpha"]
                ctx.check_near(nv * a, s2 * (1 - a), "the share of the noise", 1e-7)
                s2, nv = a, 1 - a
            b, W, _ = noisy(X, y, m, tab, s2, nv)
            ctx.check_near(one(yh), b + sum(s2 * u * v for u, v in zip(r, W)), "prediction with noise", 1e-6)
            ctx.observe("p", [one(yh)])
            return
        g, m = weights(X, y, m, tab)
        if mode == "noiseless":
            ctx.check_near(one(yh), m + sum(a * b for a, b in zip(r, g)), "prediction", 1e-7)
            want = sum((a - m) * b for a, b in zip(y, g)) / (n - (1 if ordinary else 0))
            ctx.check_near(one(gp.sigma2), want, "process variance", 1e-7)
            k = ctx.choice("at", tuple(range(n)))
            ctx.check_near(one(gp.predict(arr(ctx, [X[k]]))), y[k], "the data are interpolated", 1e-6)
        ctx.observe("p", [one(yh)])

    fn.__doc__ = f"prediction, {'ordinary' if ordinary else 'simple'} kriging, {n} points, {nf} variables, {mode}"
    return fn


def weights(X, y, m, tab):
    """R^-1 (y - m) and the mean m"""
    if len(y) == 1:
        return [y[0] - m], m
    c = tab.at(*X)
    if m is None:
        m = (y[0] + y[1]) / 2  # by symmetry the generalised least-squares mean of two points
    return [(y[0] - m - c * (y[1] - m)) / (1 - c * c), (y[1] - m - c * (y[0] - m)) / (1 - c * c)], m


def noisy(X, y, m, tab, s2, nv):
    """trend, C^-1 (y - trend) and C^-1 for observations with noise"""
    t = s2 + nv
    if len(y) == 1:
        return m, [(y[0] - m) / t], [[1 / t]]
    c = s2 * tab.at(*X)
    if m is None:
        m = (y[0] + y[1]) / 2
    d = t * t - c * c
    Ci = [[t / d, -c / d], [-c / d, t / d]]
    return m, [sum(Ci[i][j] * (y[j] - m) for j in range(2)) for i in range(2)], Ci


def variance(n, nf, ordinary=False, mode="noiseless", deep=False):
    def fn(ctx):
        gp, th, X, y, m, x, tab = setting(ctx, "squared_exponential", n, nf, ordinary, mode, None, deep, False)
        Q = arr(ctx, [x])
        yh, mse = gp.predict(Q, eval_MSE=True)
        ctx.check_near(one(yh), one(gp.predict(Q)), "the prediction does not depend on eval_MSE", 1e-9)
        ctx.check_le(0, one(mse), "the uncertainty is not negative")
        r = [tab.at(x, p) for p in X]
        if mode == "noiseless":
            g, m = weights(X, y, m, tab)
            s2 = sum((a - m) * b for a, b in zip(y, g)) / (n - (1 if ordinary else 0))
            if n == 1:
                v = 1 - r[0] * r[0]
            else:
                c = tab.at(*X)
                v = 1 - (r[0] * r[0] + r[1] * r[1] - 2 * c * r[0] * r[1]) / (1 - c * c)
                if ordinary:
                    # 1' R^-1 1 = 2 / (1 + c), 1' R^-1 r = (r0 + r1) / (1 + c)
                    u = 1 - (r[0] + r[1]) / (1 + c)
                    v = v + u * u * (1 + c) / 2
            ctx.check_near(one(mse), ctx.ite(v < 0, 0, s2 * v), "uncertainty", 1e-6)
            k = ctx.choice("at", tuple(range(n)))
            ya, ma = gp.predict(arr(ctx, [X[k]]), eval_MSE=True)
            ctx.check_near(one(ma), 0, "no uncertainty at the data", 1e-6)
        else:
            s2, nv = one(gp.sigma2), one(gp.noise_var)
            m, W, Ci = noisy(X, y, m, tab, s2, nv)
            ctx.check_near(one(yh), m + sum(s2 * u * v for u, v in zip(r, W)), "prediction with noise", 1e-6)
            c = [s2 * v for v in r]
            v = s2 - sum(c[i] * Ci[i][j] * c[j] for i in range(n) for j in range(n))
            if ordinary:
                F = sum(Ci[i][j] for i in range(n) for j in range(n))
                u = 1 - sum(Ci[i][j] * c[j] for i in range(n) for j in range(n))
                v = v + u * u / F
            ctx.check_near(one(mse), ctx.ite(v < 0, 0, v), "uncertainty with noise", 1e-6)
        ctx.observe("p", [one(yh), one(mse)])

    fn.__doc__ = f"uncertainty, {'ordinary' if ordinary else 'simple'} kriging, {n} points, {nf} variables, {mode}"
    return fn


for n, nf, o, mode in ((1, 2, False, "noiseless"), (2, 1, False, "noiseless"), (2, 1, True, "noiseless"), (1, 2, False, "noisy"), (2, 1, False, "noisy"), (2, 1, True, "noisy"), (1, 2, False, "noise_estim"),
                       (2, 1, True, "noise_estim")):
    nm = f"{n}{'-ok' if o else ''}{'' if mode == 'noiseless' else '-' + mode}"
    SUITE.add(f"posterior-{nm}", posterior(n, nf, o, mode), time_s=60, check_ms=20000)
    SUITE.add(f"variance-{nm}", variance(n, nf, o, mode), time_s=60, check_ms=20000)
    if n == 2:
        SUITE.add(f"posterior-{nm}-c", posterior(n, nf, o, mode, True), tiers=("thorough",), time_s=200, check_ms=60000)
        SUITE.add(f"variance-{nm}-c", variance(n, nf, o, mode, True), tiers=("thorough",), time_s=200, check_ms=60000)


def gradient(kind, n, nf, ordinary=False, mode="noiseless", at=None, deep=False):
    def fn(ctx):
        gp, th, X, y, m, x, tab = setting(ctx, kind, n, nf, ordinary, mode, at, deep, not ordinary)
        dy, dv = gp.gradient(arr(ctx, x))
        ctx.check(np.size(dy) == nf and np.size(dv) == nf, "one derivative per variable")
        dy, dv = list(np.asarray(dy, dtype=object).ravel()), list(np.asarray(dv, dtype=object).ravel())
        g = list(np.asarray(gp.gamma, dtype=object).ravel())
        L = gp.C
        s2 = one(gp.sigma2)
        r = [tab.at(x, p) for p in X]

        def fsolve(b):
            z = [b[0] / L[0, 0]]
            if n == 2:
                z.append((b[1] - L[1, 0] * z[0]) / L[1, 1])
            return z

        for k in range(nf):
            dr = [dcorr(ctx, kind, th, [a - b for a, b in zip(x, p)], v, k) for p, v in zip(X, r)]
            ctx.check_near(dy[k], sum(a * b for a, b in zip(g, dr)), "derivative of the prediction", 1e-7)
            # variance: s2 (1 - |L^-1 r|^2 [+ (1 - 1'R^-1 r)^2 / 1'R^-1 1])
            z, dz = fsolve(r), fsolve(dr)
            want = -2 * sum(a * b for a, b in zip(z, dz))
            if ordinary:
                f = fsolve([1.0] * n)
                ff = sum(a * a for a in f)
                want = want + 2 * (sum(a * b for a, b in zip(f, z)) - 1) * sum(a * b for a, b in zip(f, dz)) / ff
            ctx.check_near(dv[k], s2 * want, "derivative of the uncertainty", 1e-6)
        ctx.observe("g", dy + dv)

    fn.__doc__ = f"gradient, {'ordinary' if ordinary else 'simple'} kriging, {kind}, {n} points, {nf} variables, {mode}{'' if at is None else ', at the data'}"
    return fn


for k, s in (("squared_exponential", "se"), ("matern", "mat"), ("absolute_exponential", "ae")):
    SUITE.add(f"grad-{s}-1", gradient(k, 1, 2), time_s=60, check_ms=20000)
    SUITE.add(f"grad-{s}-2", gradient(k, 2, 1), time_s=60, check_ms=20000)
    SUITE.add(f"grad-{s}-2-ok", gradient(k, 2, 1, True), time_s=60, check_ms=20000, tiers=("thorough",) if s == "mat" else ("quick", "thorough"))
SUITE.add("grad-mat-at", gradient("matern", 2, 1, at=0), time_s=60, check_ms=20000)
SUITE.add("grad-se-at", gradient("squared_exponential", 2, 1, at=1), time_s=60, check_ms=20000)
SUITE.add("grad-se-noisy", gradient("squared_exponential", 2, 1, mode="noisy"), time_s=60, check_ms=20000)
SUITE.add("grad-se-noise-estim", gradient("squared_exponential", 1, 2, mode="noise_estim"), time_s=60, check_ms=20000)
SUITE.add("grad-mat-2-2", gradient("matern", 2, 2), tiers=("thorough",), time_s=240, check_ms=60000)
SUITE.add("grad-se-2-2-ok", gradient("squared_exponential", 2, 2, True), tiers=("thorough",), time_s=240, check_ms=60000)


def likelihood(mode, nf=1, like="concentrated", ordinary=False):
    """what is handed to L-BFGS-B: the negative log-likelihood and its derivative with respect to log10 of the parameters"""

    def fn(ctx):
        validation(ctx)
        X = POINTS[nf][:2]
        y = list(ctx.choice("obs", ((1.5, -0.75), (0.25, 2.0))))
        c = ctx.choice("c", (0.6, 0.8))
        e = [ctx.real(f"dR{k}", -2, 2) for k in range(nf)]
        calls = []
        nug = ctx.choice("noise", (0.5, 2.0)) if mode == "noisy" else 0
        gp = GaussianProcess(mean=T.constant_trend(nf, beta=None if ordinary else 0.5), corr=lambda th, D: np.array([c] * len(D)), thetaL=[1e-3] * nf, thetaU=[1e3] * nf,
                             nugget=nug, noise_estim=mode == "noise_estim", random_state=1, random_start=1, theta0=[1.0] * nf, likelihood=like)
        dR = np.zeros((2, 2, nf), dtype=object if ctx.symbolic else float)
        for k in range(nf):
            dR[0, 1, k] = dR[1, 0, k] = e[k]
        gp.corr_grad_theta = lambda theta, X, R, **k: dR
        p = [ctx.choice(f"p{k}", (0.0, 1.0)) for k in range(nf)]
        if mode == "noisy" or like == "restricted":
            p.append(ctx.choice("s2", (0.0, -1.0, 0.5) if like == "restricted" else (0.0, -1.0)))
        if mode == "noise_estim":
            p.append(ctx.choice("alpha", (-0.5, -1.0)))

        def lbfgs(func, x0, bounds=None, maxfun=None, **k):
            ctx.check(len(x0) == len(p) and len(bounds) == len(p), "one value per parameter")
            ctx.check(all(lo - 1e-9 <= v <= hi + 1e-9 for v, (lo, hi) in zip(x0, bounds)), "the search starts within the bounds")
            calls.append(func(np.array(p)))
            return np.array(p), calls[0][0], {"funcalls": 1, "warnflag": 0}

        ctx.patch(gpr_mod, "fmin_l_bfgs_b", lbfgs)
        # bounds of the process variance and the start do not matter here
        gp._hyperparameter_bound = lambda names: np.array([[1e-3, 1e3]] * nf + [[1e-3, 1.0]] * (len(p) - nf))
        gp._check_data(arr(ctx, X), arr(ctx, y))
        par, llf, env = gp._optimize_hyperparameter()
        ctx.check(len(calls) == 1 and len(calls[0]) == 2, "value and gradient")
        v, g = calls[0]
        v = one(v)
        if not sym.is_sym(v) and np.isinf(v):
            return  # invalid parameters
        ctx.check_near(one(llf), -v, "likelihood of the chosen parameters", 1e-9)
        ctx.check(np.allclose(par["theta"], 10.0 ** np.array(p[:nf])), "the chosen parameters")
        P = [10.0 ** a for a in p]
        z = [a - (sum(y) / 2 if ordinary else 0.5) for a in y]
        if like == "restricted":
            s2, nv = P[nf], P[-1] if mode == "noise_estim" else nug
            C = [[s2 + nv, s2 * c], [s2 * c, s2 + nv]]
            ctx.check_near(one(env["sigma2"]), s2, "the variance of the process", 1e-9)
            ctx.check_near(one(env["noise_var"]), nv, "the variance of the noise", 1e-9)
        elif mode == "noisy":
            s2 = P[-1]
            C = [[s2 + nug, s2 * c], [s2 * c, s2 + nug]]
        elif mode == "noise_estim":
            C = [[1.0, P[-1] * c], [P[-1] * c, 1.0]]
        else:
            C = [[1.0, c], [c, 1.0]]
        det = C[0][0] * C[1][1] - C[0][1] * C[1][0]
        Ci = [[C[1][1] / det, -C[0][1] / det], [-C[1][0] / det, C[0][0] / det]]
        gm = [Ci[0][0] * z[0] + Ci[0][1] * z[1], Ci[1][0] * z[0] + Ci[1][1] * z[1]]
        quad = z[0] * gm[0] + z[1] * gm[1]
        full = mode == "noisy" or like == "restricted"
        tot = 1.0 if full else quad / 2
        if ordinary:  # the restricted likelihood
            F = sum(Ci[i][j] for i in range(2) for j in range(2))
            ll = -0.5 * (np.log(2 * np.pi) - np.log(2) + np.log(det) + np.log(F) + quad)
            PC = [[Ci[i][j] - sum(Ci[i]) * sum(Ci[j]) / F for j in range(2)] for i in range(2)]
        elif full:
            ll = -0.5 * (2 * np.log(2 * np.pi) + np.log(det) + quad)
        else:
            ll = -0.5 * (2 * log(2 * np.pi * tot) + np.log(det) + 2)
        ctx.check_near(v, -ll, "value", 1e-6)
        ctx.check(np.size(g) == len(p), "one derivative per parameter")
        g = list(np.asarray(g, dtype=object).ravel())
        mats = [[[0, e[k]], [e[k], 0]] for k in range(nf)]
        if like == "restricted":
            mats = [[[0, s2 * m[0][1]], [s2 * m[0][1], 0]] for m in mats] + [[[1, c], [c, 1]]] + ([[[1, 0], [0, 1]]] if mode == "noise_estim" else [])
        elif mode == "noisy":
            mats = [[[0, P[-1] * m[0][1]], [P[-1] * m[0][1], 0]] for m in mats] + [[[1, c], [c, 1]]]
        elif mode == "noise_estim":
            mats = [[[0, P[-1] * m[0][1]], [P[-1] * m[0][1], 0]] for m in mats] + [[[0, c], [c, 0]]]
        for k, M in enumerate(mats):
            tr = sum((PC if ordinary else Ci)[i][j] * M[j][i] for i in range(2) for j in range(2))
            q = sum(gm[i] * M[i][j] * gm[j] for i in range(2) for j in range(2))
            # both sides times the (positive) total variance
            ctx.check_near(g[k] * tot, 0.5 * (tr * tot - q) * P[k] * float(np.log(10)), "derivative", 1e-6)
        ctx.observe("g", g)

    fn.__doc__ = f"{like} likelihood and gradient, {mode}, two points{', ordinary kriging' if ordinary else ''}"
    return fn


SUITE.add("likelihood-noiseless", likelihood("noiseless", 2), time_s=60, check_ms=20000)
SUITE.add("likelihood-noisy", likelihood("noisy"), time_s=60, check_ms=20000)
SUITE.add("likelihood-noise-estim", likelihood("noise_estim"), time_s=60, check_ms=20000)
for m in ("noiseless", "noisy", "noise_estim"):
    SUITE.add(f"restricted-{m}", likelihood(m, 1, "restricted"), time_s=60, check_ms=20000)
    SUITE.add(f"restricted-{m}-ok", likelihood(m, 1, "restricted", True), time_s=60, check_ms=20000)


def search_restarts(n, wait):
    def fn(ctx):
        """the parameters of the best restart are taken; restarts stop with the budget or when they no longer help"""
        validation(ctx)
        mode, like = ctx.choice("mode", (("noiseless", "concentrated"), ("noisy", "concentrated"), ("noise_estim", "concentrated"), ("noise_estim", "restricted"), ("noisy", "restricted")))
        nf = 2
        extra = {("noiseless", "concentrated"): 0, ("noise_estim", "restricted"): 2}.get((mode, like), 1)
        budget = 100
        gp = GaussianProcess(mean=T.constant_trend(nf, beta=0.5), corr="squared_exponential", thetaL=[1e-3, 1e-2], thetaU=[1e3, 1e2], nugget=0.5 if mode == "noisy" else 0,
                             noise_estim=mode == "noise_estim", random_state=1, random_start=n, wait_iter=wait, eval_budget=budget, theta0=[1.0, 0.5], likelihood=like)
        gp._check_data(np.array([[0.25, -1.0], [1.5, 0.5]]), np.array([1.5, -0.75]))
        res, asked, final = [], [], []

        def lbfgs(func, x0, bounds=None, maxfun=None, **k):
            k = len(res)
            ctx.check(len(x0) == nf + extra and np.shape(bounds) == (nf + extra, 2), "one value and one pair of bounds per parameter")
            ctx.check(np.allclose(np.asarray(bounds, dtype=float)[:nf], [[-3, 3], [-2, 2]]), "the bounds of the kernel parameters")
            ctx.check(all(lo - 1e-9 <= v <= hi + 1e-9 for v, (lo, hi) in zip(x0, bounds)), "the search starts within the bounds")
            if k == 0:
                ctx.check(np.allclose(np.asarray(x0[:nf], dtype=float), np.log10([1.0, 0.5])), "the first search starts from the given parameters")
            asked.append(maxfun)
            f = ctx.real(f"f{k}", -9, 9)
            c = ctx.choice(f"n{k}", (1, 60))
            p = np.array([0.125 * (k + 1), -0.25 * (k + 1)] + [-0.5 - 0.25 * k] * extra)
            res.append((p, f, c))
            return p, f, {"funcalls": c, "warnflag": 0}

        ctx.patch(gpr_mod, "fmin_l_bfgs_b", lbfgs)

        def llf(par, env=None, eval_grad=False):
            final.append(list(np.asarray(par, dtype=float)))
            return -1.0

        setattr(gp, f"log_likelihood_{like}", llf)
        par, v, env = gp._optimize_hyperparameter()
        k = len(res)
        ctx.check(1 <= k <= n, "at most the given number of restarts")
        best = ctx.min([f for _, f, _ in res])
        theta = list(np.asarray(par["theta"], dtype=float))
        names = {("noiseless", "concentrated"): ["theta"], ("noisy", "concentrated"): ["theta", "sigma2"], ("noise_estim", "concentrated"): ["theta", "alpha"],
                 ("noise_estim", "restricted"): ["theta", "sigma2", "noise_var"], ("noisy", "restricted"): ["theta", "sigma2"]}[mode, like]
        ctx.check(list(par) == names and v == -1.0 and len(final) == 1, "the parameters by name and their likelihood")
        vals = [float(u) for q in names for u in np.ravel(np.asarray(par[q], dtype=float))]
        ctx.check(len(vals) == nf + extra and np.allclose(vals, final[-1]), "the likelihood is that of the parameters")
        ctx.check(ctx.any([ctx.all([f == best, bool(np.allclose(vals, 10.0 ** p))]) for p, f, _ in res]), "the parameters of the best restart")
        used = 0
        for b, (_, _, c) in zip(asked, res):
            ctx.check(b == budget - used and b > 0, "a restart gets what is left of the budget")
            used += c
        idle, low = 0, None
        for i, (_, f, _) in enumerate(res):
            idle = ctx.ite(True if low is None else f <= low, 0, idle + 1)
            low = f if low is None else ctx.min([low, f])
            if i < k - 1:
                ctx.check(idle < wait, "gives up after the given number of fruitless restarts")
        if k < n and used < budget:
            ctx.check(idle >= wait, "stops early only if the last restarts were fruitless")

    fn.__doc__ = f"{n} searches for the kernel parameters, patience {wait}"
    return fn


SUITE.add("search-3-1", search_restarts(3, 1), time_s=60)
SUITE.add("search-4-2", search_restarts(4, 2), time_s=60)


def theta_gradient(kind):
    def fn(ctx):
        validation(ctx)
        nf = 2
        th = [ctx.real(f"theta{i}", 0.1, 4) for i in range(nf)]
        X = [[ctx.real(f"x{i}.{j}", -2, 2) for j in range(nf)] for i in range(2)]
        gp = GaussianProcess(mean=T.constant_trend(nf, beta=0), corr=kind, thetaL=[1e-3] * nf, thetaU=[1e3] * nf, nugget=0)
        gp._check_data(arr(ctx, X), arr(ctx, [1.0, 2.0]))
        R = gp.correlation_matrix(arr(ctx, th))
        d = [a - b for a, b in zip(*X)]
        r = corr(ctx, kind, th, d)
        ctx.check(np.shape(R) == (2, 2), "shape")
        ctx.check_near(R[0, 1], r, "correlation of the points", 1e-9)
        ctx.check(ctx.all([R[0, 0] == 1, R[1, 1] == 1, R[0, 1] == R[1, 0]]), "symmetric with unit diagonal")
        G = gp.corr_grad_theta(arr(ctx, th), arr(ctx, X), R)
        ctx.check(np.shape(G) == (2, 2, nf), "one matrix per parameter")
        for k in range(nf):
            if kind == "squared_exponential":
                w = -d[k] * d[k] * r
            elif kind == "absolute_exponential":
                w = -ctx.abs(d[k]) * r
            else:
                w = -1.5 * d[k] * d[k] * exp(-R3 * sq(sum(t * v * v for t, v in zip(th, d))))
            ctx.check_near(G[0, 1, k], w, "derivative", 1e-8)
            ctx.check_near(G[1, 0, k], w, "derivative", 1e-8)
            ctx.check(ctx.all([G[0, 0, k] == 0, G[1, 1, k] == 0]), "the diagonal is constant")

    fn.__doc__ = f"derivatives of the correlation matrix with respect to the kernel parameters, {kind}"
    return fn


for k in ("squared_exponential", "absolute_exponential", "matern"):
    SUITE.add(f"dtheta-{k}", theta_gradient(k), time_s=60, check_ms=20000)


@SUITE.case(time_s=60, check_ms=20000)
def hessian(ctx):
    """second derivatives of the prediction"""
    nf = 2
    gp, th, X, y, m, x, tab = setting(ctx, "squared_exponential", 1, nf, False, "noiseless")
    H = gp.Hessian(arr(ctx, x))
    ctx.check(np.shape(H) == (nf, nf), "shape")
    g, r = one(gp.gamma), tab.at(x, X[0])
    d = [a - b for a, b in zip(x, X[0])]
    for i in range(nf):
        for j in range(nf):
            ctx.check_near(H[i, j], g * r * (4 * th[i] * th[j] * d[i] * d[j] - (2 * th[i] if i == j else 0)), "second derivative", 1e-7)


@SUITE.case(time_s=60)
def several(ctx):
    """predictions of several points, at once or in batches, are those of the single points"""
    gp, th, X, y, m, x, tab = setting(ctx, "squared_exponential", 1, 2, False, "noiseless")
    Q = arr(ctx, [x, X[0], x])
    b = ctx.choice("batch", (None, 1, 2, 3, 5))
    mse = ctx.choice("mse", (True, False))
    out = gp.predict(Q, eval_MSE=mse, batch_size=b)
    ref = [gp.predict(Q[i:i + 1], eval_MSE=mse) for i in range(3)]
    if mse:
        ctx.check(len(out) == 2, "prediction and uncertainty")
        ctx.check(ctx.all([one(r[k]) == v for k in (0, 1) for r, v in zip(ref, np.asarray(out[k], dtype=object).ravel())]) and all(np.size(o) == 3 for o in out), "one value per point")
    else:
        ctx.check(np.size(out) == 3 and ctx.all([one(r) == v for r, v in zip(ref, np.asarray(out, dtype=object).ravel())]), "one value per point")
    C = gp.prior_cov(arr(ctx, [x]), arr(ctx, [X[0], x]), corr=True)
    ctx.check(np.shape(C) == (1, 2) and ctx.all([C[0, 0] == tab.at(x, X[0]), C[0, 1] == 1]), "prior correlation")


@SUITE.case(time_s=40)
def trends(ctx):
    """the trend functions and their derivatives"""
    nf = ctx.choice("nf", (1, 2))
    X = [[ctx.real(f"x{i}.{j}", -5, 5) for j in range(nf)] for i in range(2)]
    b = [ctx.real(f"b{i}", -2, 2) for i in range(6)]
    A = arr(ctx, X)
    quad = lambda p: [1.0] + p + [p[i] * p[j] for i in range(nf) for j in range(i, nf)]
    for cls, want in ((T.constant_trend, lambda p: [1.0]), (T.linear_trend, lambda p: [1.0] + p), (T.quadratic_trend, quad)):
        n = len(want(X[0]))
        t = cls(nf, beta=b[:n])
        F = t.F(A)
        ctx.check(np.shape(F) == (2, n), "one row per point")
        ctx.check(ctx.all([F[i, j] == v for i in range(2) for j, v in enumerate(want(X[i]))]), f"{cls.__name__}: basis functions")
        v = np.asarray(t(A), dtype=object).ravel()
        for i in range(2):
            ctx.check_near(v[i], sum(a * c for a, c in zip(b, want(X[i]))), f"{cls.__name__}: value", 1e-8)
        if cls is not T.quadratic_trend:
            J = t.Jacobian(A[:1])
            ctx.check(np.shape(J) == (n, nf), f"{cls.__name__}: shape of the Jacobian")
            ctx.check(all(J[i, j] == (1 if i == j + 1 else 0) for i in range(n) for j in range(nf)), f"{cls.__name__}: Jacobian")
            ctx.check(np.shape(t.Hessian(A[:1])) == (nf, nf, n) and not np.any(t.Hessian(A[:1])), f"{cls.__name__}: Hessian")
