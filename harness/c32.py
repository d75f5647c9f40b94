"""C32  the expected hypervolume improvement is the one of the model's predictive distribution"""
import numpy as np

from bayes_optim.multi_objective import EHVI
from bayes_optim.utils.multi_objective.box_decompositions import FastNondominatedPartitioning, NondominatedPartitioning
from engine import sym
from engine.case import Suite
from harness.c13 import cdf, pdf
from harness.mo import empty, points, rows, strictly, tensor

SUITE = Suite("C32", bounds=["one candidate, up to 2 Pareto points with 2 objectives and 1 with 3 objectives, arbitrary reference point, predictive means and variances in [0.01, 100]"],
              outside=["more than one candidate per call", "variances below 1e-9 (clamped by the code)", "float32 rounding of the predictions", "more objectives"],
              assumptions=["normal cdf and pdf are uninterpreted functions; at the clamped upper bound (1e8 or 1e10, standing for infinity) they are 1 and 0, as in floating point",
                           "torch operations are modelled by the facade in engine/torchfacade.py (exact reals)"])
INF = float("inf")


class Model:
    def __init__(self, mean, var):
        self.mean, self.var = mean, var
        self.seen = []

    def predict(self, X, eval_MSE=False):
        self.seen.append(np.asarray(X, dtype=object).tolist())
        f = lambda v: np.array([v], dtype=object if any(sym.is_sym(x) for x in v) else float)
        return (f(self.mean), f(self.var)) if eval_MSE else f(self.mean)


def sqrt(v):
    return sym.fn1("sqrt", v) if sym.is_sym(v) else float(np.sqrt(v))


def part(l, u, mu, s):
    """E[max(min(Y, u) - l, 0)] for Y ~ N(mu, s^2)"""
    a = (l - mu) / s
    if u == INF:
        return s * pdf(a) + (mu - l) * (1 - cdf(a))
    b = (u - mu) / s
    return s * (pdf(a) - pdf(b)) + (mu - l) * (cdf(b) - cdf(a)) + (u - l) * (1 - cdf(b))


def strips(Y, ref):
    """the non-dominated space above ref in vertical strips (2 objectives)"""
    ps = []
    for p in Y:  # insertion by the first objective, larger first
        k = 0
        while k < len(ps) and (bool(ps[k][0] > p[0]) or bool(ps[k][0] == p[0]) and bool(ps[k][1] >= p[1])):
            k += 1
        ps.insert(k, p)
    out, right, top = [], INF, ref[1]
    for p in ps:
        if bool(p[0] <= ref[0]) or bool(p[1] <= top):
            continue
        out.append(((p[0], top), (right, INF)))
        right, top = p[0], p[1]
    out.append(((ref[0], top), (right, INF)))
    return out


def ehvi_case(n, m, cls, x, above=True, **o):
    def fn(ctx):
        ref = [ctx.real(f"r{j}", -5, 5) for j in range(m)]
        Y = points(ctx, n, m, -10, 10)
        if above:
            for y in Y:
                ctx.assume(strictly(ctx, y, ref))
        mu = [ctx.real(f"mu{j}", -10, 10) for j in range(m)]
        var = [ctx.real(f"v{j}", 0.01, 100) for j in range(m)]
        if ctx.symbolic:
            sd = [sym.cur().sqrt(v) for v in var]
            big = 1e10 if isinstance(x, np.ndarray) and x.dtype == np.float64 else 1e8
            ctx.user["far"] = [(big - a) / s for a, s in zip(mu, sd)]
        else:
            sd = [sqrt(v) for v in var]
        cells = strips(Y, ref) if m == 2 else None
        part_ = cls(ref_point=tensor(ref), Y=tensor(Y) if n else empty(m))
        model = Model(mu, var)
        acq = EHVI(model=model, ref_point=ref, partitioning=part_)
        got = np.asarray(acq(x)).ravel()
        ctx.check(len(got) == 1, "one value for one candidate")
        got = got[0]
        if m > 2:
            lo, up = rows(part_.get_hypercell_bounds())
            cells = list(zip(lo, up))
        want = 0.0
        for l, u in cells:
            v = 1.0
            for j in range(m):
                v = v * part(l[j], u[j], mu[j], sd[j])
            want = want + v
        ctx.check_near(got, want, "the value is the expected hypervolume improvement", tol=2e-3)
        ctx.check(len(model.seen) == 1 and np.shape(model.seen[0]) == (1, 2), "the model is asked for the candidate, as a row")
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(model.seen[0][0], [1.5, 2.0])]), "the model is asked for the candidate itself")

    SUITE.add(f"EHVI({n} points, {m} objectives, {cls.__name__}, {'inside' if above else 'anywhere'}, {type(x).__name__})", fn, signs=True, uf_free=True, **o)


F = np.array([1.5, 2.0])
for C in (NondominatedPartitioning, FastNondominatedPartitioning):
    ehvi_case(0, 2, C, F)
    ehvi_case(1, 2, C, F)
    ehvi_case(2, 2, C, F)
    ehvi_case(1, 3, C, F)
ehvi_case(1, 2, NondominatedPartitioning, [1.5, 2.0])
ehvi_case(2, 2, NondominatedPartitioning, np.array([[1.5, 2.0]]))
