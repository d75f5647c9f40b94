"""C34  the scikit-learn wrapper and the quality measures follow their definitions"""
import numpy as np
from sklearn.gaussian_process.kernels import RBF, ConstantKernel, Matern, Product, Sum, WhiteKernel

import bayes_optim.surrogate.gaussian_process as gp_mod
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate.gaussian_process import MSLL, SMSE, GaussianProcessSklearn
from engine import sym
from engine.case import Suite

SUITE = Suite("C34", bounds=["wrapper: one or two variables, one or two objectives, two training points, one or two arbitrary query points; Matern 1/2, 3/2, 5/2 and RBF kernels with fixed length scales",
                             "quality measures: two or three arbitrary test values, predictions and variances"],
              outside=["the fit of scikit-learn itself (a stand-in with scikit-learn's kernel objects and attributes takes its place)", "coinciding points for Matern 1/2, whose derivative does not exist there"],
              assumptions=["exp and log are uninterpreted functions with true axioms"])

SC, S2, LEN = 1.5, 2.0, (0.5, 2.0)  # all constants are exact in binary
XT = np.array([[0.25, -1.0], [2.0, 0.5]])
ALPHA = np.array([[0.5, -1.25], [2.0, 0.75]])
L = np.array([[1.0, 0.0], [-0.5, 0.5]])
KINV = np.array([[2.0, 2.0], [2.0, 4.0]])  # inverse of L L'


def f1(name, x):
    return sym.fn1(name, x) if sym.is_sym(x) else float(getattr(np, name)(x))


def arr(rows):
    flat = [v for r in rows for v in r]
    return np.array([list(r) for r in rows], dtype=object if any(sym.is_sym(v) for v in flat) else float)


def dist(x, t):
    return f1("sqrt", sum((a / l - b / l) * (a / l - b / l) for a, b, l in zip(x, t, LEN)))


def corr(kind, d):
    if kind == "rbf":
        return f1("exp", -0.5 * (d * d))
    if kind == 0.5:
        return f1("exp", -d)
    c = float(np.sqrt(3 if kind == 1.5 else 5))
    e = f1("exp", -c * d)
    return (1 + c * d) * e if kind == 1.5 else (1 + c * d + 5.0 / 3 * (d * d)) * e


def dcorr(kind, x, t, j):
    """derivative of the correlation with respect to the j-th coordinate of x"""
    d = dist(x, t)
    dd = (x[j] - t[j]) / (d * LEN[j] ** 2) if d != 0 else 0.0  # derivative of the distance
    g = d * dd  # = (x[j] - t[j]) / LEN[j] ** 2
    if kind == "rbf":
        return -f1("exp", -0.5 * (d * d)) * g
    if kind == 0.5:
        return -f1("exp", -d) * dd
    c = float(np.sqrt(3 if kind == 1.5 else 5))
    e = f1("exp", -c * d)
    return -3.0 * e * g if kind == 1.5 else -5.0 / 3 * e * (1 + c * d) * g


def kernel(kind, dim):
    """scikit-learn's kernel object, evaluated by the formulas above"""

    class P_(Product):
        def __call__(self, X, Y=None, eval_gradient=False):
            Y = X if Y is None else Y
            return arr([[S2 * corr(kind, dist(list(x), list(t))) for t in Y.tolist()] for x in X.tolist()])

    class S_(Sum):
        def __call__(self, X, Y=None, eval_gradient=False):
            return self.k1(X, Y)

    k = RBF(np.array(LEN[:dim])) if kind == "rbf" else Matern(np.array(LEN[:dim]), nu=kind)
    return S_(P_(ConstantKernel(S2), k), WhiteKernel(0.1))


def fake(ctx, log, kind):
    class Fake:
        def __init__(self, kernel=None, **kw):
            log.append(self)
            self.kw, self.given = kw, kernel

        def fit(self, X, y):
            self.i = len(log) - 1
            self.X, self.y = X, y
            dim = np.shape(X)[1]
            self.kernel_ = kernel(kind, dim)
            self.X_train_ = XT[:, :dim]
            self.alpha_ = ALPHA[self.i]
            self.L_ = L
            self._y_train_std, self._y_train_mean = SC + self.i, 0.25
            return self

        def predict(self, X, return_std=False):
            m = [10 * self.i + r[0] for r in X.tolist()]
            s = [self.i + 1.5 for r in X.tolist()]
            m, s = arr([m])[0], arr([s])[0]
            return (m, s) if return_std else m

    return Fake


def mk(ctx, dim, n_obj, kind=1.5):
    log = []
    ctx.patch(gp_mod, "sk_gpr", fake(ctx, log, kind))
    return GaussianProcessSklearn(RealSpace([[-5, 5]] * dim), n_obj=n_obj), log


def fitted(dim, n_obj, n):
    def fn(ctx):
        m, log = mk(ctx, dim, n_obj)
        X = arr([[ctx.real(f"x{k}.{j}", -5, 5) for j in range(dim)] for k in range(n)])
        ys = [[ctx.real(f"y{k}.{i}", -9, 9) for i in range(n_obj)] for k in range(n)]
        y = arr(ys) if n_obj > 1 or ctx.choice("shape", ("1d", "2d")) == "2d" else arr([[r[0] for r in ys]])[0]
        ctx.check(not m.is_fitted, "not fitted before")
        m.fit(X, y)
        ctx.check(m.is_fitted, "fitted")
        ctx.check(len(log) == n_obj, "one model per objective")
        for i, g in enumerate(log):
            ctx.check(np.shape(g.X) == (n, dim) and np.shape(g.y) == (n,), "shape of the training data")
            ctx.check(ctx.all([ctx.eq(a, b) for r, s in zip(g.X.tolist(), X.tolist()) for a, b in zip(r, s)]), "every model gets all points")
            ctx.check(ctx.all([ctx.eq(a, r[i]) for a, r in zip(list(g.y), ys)]), "the i-th model gets the i-th objective")
            ctx.check(np.allclose(np.ravel(g.given.k1.k2.length_scale_bounds), [1e-9, 1e11] * dim), "length scales are bounded relative to the box")
        Q = arr([[ctx.real(f"q{k}.{j}", -5, 5) for j in range(dim)] for k in range(2)])
        p = m.predict(Q)
        p2, v = m.predict(Q, eval_MSE=True)
        ctx.check(np.shape(p) == np.shape(p2) == np.shape(v) == (2, n_obj), "shape of the predictions")
        for k in range(2):
            for i in range(n_obj):
                ctx.check(ctx.all([ctx.eq(p[k, i], 10 * i + Q[k, 0]), ctx.eq(p2[k, i], 10 * i + Q[k, 0])]), "the prediction of objective i is that of the i-th model")
                ctx.check(ctx.eq(v[k, i], (i + 1.5) ** 2), "the squared deviation is returned")

    fn.__doc__ = f"{dim} variables, {n_obj} objectives, {n} points"
    return fn


for a in ((1, 1, 2), (2, 1, 1), (2, 2, 2), (1, 2, 1)):
    SUITE.add("fit-%d-%d-%d" % a, fitted(*a), time_s=30)


@SUITE.case(time_s=30)
def shapes(ctx):
    """data that do not match the declared dimensions are rejected"""
    dim, n_obj = ctx.choice("dim", (1, 2)), ctx.choice("n_obj", (1, 2))
    m, log = mk(ctx, dim, n_obj)
    dx, dy = ctx.choice("dx", (1, 2)), ctx.choice("dy", (0, 1, 2))
    X = arr([[0.5 * k + j for j in range(dx)] for k in range(3)])
    y = np.array([1.0, 2.0, 0.5]) if dy == 0 else np.array([[k * 1.0 + i for i in range(dy)] for k in range(3)])
    ok = dx == dim and max(dy, 1) == n_obj
    try:
        m.fit(X, y)
    except ValueError:
        ctx.check(not ok, "matching data are accepted")
        return
    ctx.check(ok, "data of other dimensions are rejected")


def grads(kind, dim, n_obj, n, at=None):
    def fn(ctx):
        m, log = mk(ctx, dim, n_obj, kind)
        m.fit(XT[:, :dim], np.array([[1.0] * n_obj, [2.0] * n_obj]))
        Q = [[ctx.real(f"q{k}.{j}", -5, 5) for j in range(dim)] for k in range(n)]
        if at is not None:
            Q[0] = [float(v) for v in XT[at, :dim]]
        elif kind == 0.5:
            for q in Q:
                for t in XT:
                    ctx.assume(ctx.any([ctx.neg(ctx.eq(q[j], float(t[j]))) for j in range(dim)]))
        for rep in range(2):  # the second call uses what the first one keeps
            dm, dv = m.gradient(arr(Q))
            ctx.check(np.shape(dm) == np.shape(dv) == (n_obj, n, dim), "shape of the gradients")
            for i in range(n_obj):
                sc = SC + i
                for k, q in enumerate(Q):
                    kk = [S2 * corr(kind, dist(q, list(t))) for t in XT[:, :dim]]
                    for j in range(dim):
                        dk = [S2 * dcorr(kind, q, [float(v) for v in t], j) for t in XT[:, :dim]]
                        ctx.check_near(dm[i, k, j], sc * sum(a * b for a, b in zip(dk, ALPHA[i].tolist())), "derivative of the mean", tol=1e-6)
                        w = -2.0 * sc ** 2 * sum(dk[a] * float(KINV[a, b]) * kk[b] for a in range(2) for b in range(2))
                        ctx.check_near(dv[i, k, j], w, "derivative of the variance", tol=1e-6)

    fn.__doc__ = f"gradients, kernel {kind}, {dim} variables, {n_obj} objectives, {n} points"
    return fn


for kind in (0.5, 1.5, 2.5, "rbf"):
    SUITE.add(f"grad-{kind}-1-1-1", grads(kind, 1, 1, 1), time_s=60)
    SUITE.add(f"grad-{kind}-2-1-1", grads(kind, 2, 1, 1), time_s=60)
SUITE.add("grad-1.5-1-1-2", grads(1.5, 1, 1, 2), time_s=60)
SUITE.add("grad-1.5-2-2-2", grads(1.5, 2, 2, 2), time_s=60)
for kind in (1.5, 2.5, "rbf"):
    SUITE.add(f"grad-{kind}-at", grads(kind, 2, 1, 1, at=1), time_s=60)


def smse(n):
    def fn(ctx):
        t = [ctx.real(f"t{k}", -9, 9) for k in range(n)]
        p = [ctx.real(f"p{k}", -9, 9) for k in range(n)]
        mu = sum(t) / n
        var = sum((v - mu) * (v - mu) for v in t) / n
        ctx.assume(var >= 0.01)
        a = ctx.choice("as", ("list", "array"))
        f = (lambda v: list(v)) if a == "list" else (lambda v: arr([v])[0])
        r = SMSE(f(t), f(p))
        ctx.check_near(r * var, sum((x - y) * (x - y) for x, y in zip(t, p)) / n, "mean squared error in units of the variance of the targets", tol=1e-6)

    fn.__doc__ = f"SMSE of {n} values"
    return fn


SUITE.add("smse-2", smse(2), time_s=60)
SUITE.add("smse-3", smse(3), time_s=60)


def msll(n):
    def fn(ctx):
        tr = [ctx.real(f"r{k}", -9, 9) for k in range(2)]
        t = [ctx.real(f"t{k}", -9, 9) for k in range(n)]
        p = [ctx.real(f"p{k}", -9, 9) for k in range(n)]
        v = [ctx.real(f"v{k}", 0.01, 9) for k in range(n)]
        mu = sum(tr) / 2
        var = sum((x - mu) * (x - mu) for x in tr) / 2
        ctx.assume(var >= 0.01)
        V = arr([v])[0]
        r = MSLL(arr([tr])[0], arr([t])[0], arr([p])[0], V)
        tp = 2 * float(np.pi)
        want = 0.0
        for k in range(n):
            want = want + 0.5 * f1("log", tp * v[k]) + (t[k] - p[k]) * (t[k] - p[k]) / (2 * v[k])
            want = want - 0.5 * f1("log", tp * var) - (t[k] - mu) * (t[k] - mu) / (2 * var)
        ctx.check_near(r, want / n, "mean standardised log loss", tol=1e-6)
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(list(V), v)]), "the variances are kept")

    fn.__doc__ = f"MSLL of {n} values"
    return fn


SUITE.add("msll-1", msll(1), time_s=60)
SUITE.add("msll-2", msll(2), time_s=60)


@SUITE.case(time_s=30)
def msll_zero(ctx):
    """a variance of zero does not break the measure, and the caller's variances are kept"""
    V = np.array([0.0, 0.5])
    r = MSLL(np.array([0.0, 2.0]), np.array([ctx.real("t", -2, 2), 1.0]) if not ctx.symbolic else arr([[ctx.real("t", -2, 2), 1.0]])[0], np.array([0.5, 1.0]), V)
    ctx.check(ctx.all([r < 1e12, r > -1e12]), "a number")
    ctx.check(V.tolist() == [0.0, 0.5], "the caller's variances are kept")
