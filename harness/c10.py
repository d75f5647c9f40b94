"""C10  tell: what is reported is what is remembered"""
import numpy as np

from bayes_optim.bayes_opt import BO, NoisyBO, ParallelBO
from bayes_optim.search_space import RealSpace
from bayes_optim.solution import Solution
from engine import sym
from engine.case import Suite
from harness.bo import NAMES, FakeModel, as_dict, make, mixed_space, point, quiet
from harness.lib import same_val

SUITE = Suite("C10", bounds=["one to three calls of tell with one or two points each, arbitrary coordinates and objective values in [-50, 50]",
                             "failed evaluations (NaN, +-inf) at any position", "points as lists, dicts in any key order, or Solutions"],
              outside=["expensive constraint values (h_vals, g_vals are unused)"],
              assumptions=["surrogate model replaced by one that records what it is fitted to", "r2 and MAPE, which are only logged, are constants"])


def fvals(ctx, t, n, bad=True):
    out = []
    for i in range(n):
        k = ctx.choice(f"{t}.bad{i}", (0, 0, "nan", "inf")[1:]) if bad else 0
        out.append(float("nan") if k == "nan" else float("inf") if k == "inf" else ctx.real(f"{t}.y{i}", -50, 50))
    return out


def finite(y):
    return sym.is_sym(y) or np.isfinite(y)


def same_rows(ctx, got, want):
    return len(got) == len(want) and ctx.all([same_val(ctx, a, b) for g, w in zip(got, want) for a, b in zip(g, w)])


def check_state(ctx, opt, rows, ys, n_told, n_calls, minimize, label):
    """rows/ys: the successful evaluations, in order"""
    D = opt.data
    ctx.check(same_rows(ctx, D.tolist() if D.ndim == 2 else [D.tolist()], rows), label + ": data")
    ctx.check(list(D.var_name) == list(opt.search_space.var_name), label + ": names")
    f = list(np.asarray(D.fitness).ravel())
    ctx.check(len(f) == len(ys) and ctx.all([a == b for a, b in zip(f, ys)]), label + ": fitness")
    ctx.check(len(D.n_eval) == len(ys) and ctx.all([n == 1 for n in D.n_eval]), label + ": n_eval")
    ctx.check(opt.eval_count == n_told, label + ": eval_count")
    ctx.check(opt.iter_count == n_calls and len(opt.hist_f) == n_calls, label + ": iter_count")
    xo = opt.xopt
    best = ctx.min(ys) if minimize else ctx.max(ys)
    fo = xo.fitness[0]
    ctx.check(fo == best, label + ": best value")
    ctx.check(ctx.any([ctx.all([fo == y, ctx.all([same_val(ctx, a, b) for a, b in zip(xo.tolist(), r)])]) for r, y in zip(rows, ys)]), label + ": best point")


def std_ok(ctx, opt, rows, ys, label):
    """the model sees every successful point and its standardised value"""
    X, y = opt.model.fits[-1]
    ctx.check(same_rows(ctx, X, rows), label + ": model inputs")
    ctx.check(len(y) == len(ys), label + ": model outputs")
    for i in range(len(ys)):
        for j in range(i):
            ctx.check(ctx.all([ctx.implies(ys[i] < ys[j], y[i] <= y[j]), ctx.implies(ys[i] == ys[j], y[i] == y[j])]), label + ": order of the outputs")
    ctx.check(ctx.all([opt.fmin == ctx.min(y), opt.fmax == ctx.max(y)]), label + ": fmin, fmax")


def tell_case(mode, sizes, minimize=True, bad=True, cls=BO):
    def fn(ctx):
        mn = minimize if minimize is not None else ctx.choice("minimize", (True, False))
        opt = make(ctx, cls, eval_type="dict" if mode == "dict" else "list", minimize=mn, **({"n_point": 2, "acquisition_par": {"t": 2}} if cls is not BO else {}))
        rows, ys, told = [], [], 0
        for c, n in enumerate(sizes):
            P = [point(ctx, f"p{c}{i}", ("A", "B") if (c + i) % 2 else ("C",)) for i in range(n)]
            Y = fvals(ctx, f"c{c}", n, bad and c != 1)
            if c == 0:
                ctx.assume(any(finite(v) for v in Y))
            if mode == "dict":
                order = ctx.choice(f"order{c}", (NAMES, ("b", "d", "r", "i")))
                X = [as_dict(p, order if i else NAMES) for i, p in enumerate(P)]
                if ctx.choice(f"first{c}", (0, 1)):
                    X[0] = as_dict(P[0], order)
            elif mode == "solution":
                X = Solution([list(p) for p in P], var_name=list(NAMES))
            else:
                X = [list(p) for p in P]
            opt.tell(X, Y)
            told += n
            rows += [p for p, v in zip(P, Y) if finite(v)]
            ys += [v for v in Y if finite(v)]
            check_state(ctx, opt, rows, ys, told, c + 1, mn, "after tell")
            std_ok(ctx, opt, rows, ys, "model")
            if mode == "list":
                ctx.check(ctx.all([ctx.seq_eq(x, p) for x, p in zip(X, P)]), "the points passed in are not modified")

    fn.__doc__ = f"{cls.__name__}.tell, {mode}, batches {sizes}, minimize={minimize}"
    return fn


SUITE.add("list-1-1", tell_case("list", (1, 1), None), time_s=60)
SUITE.add("list-2-1", tell_case("list", (2, 1)), time_s=60)
SUITE.add("list-2-1-max", tell_case("list", (2, 1), False, bad=False), time_s=60)
SUITE.add("dict-2", tell_case("dict", (2,), bad=False), time_s=60)
SUITE.add("dict-1-1", tell_case("dict", (1, 1), bad=False), time_s=60)
SUITE.add("solution-2", tell_case("solution", (2,)), time_s=60)
SUITE.add("parallel-2", tell_case("list", (2,), cls=ParallelBO), time_s=60)
SUITE.add("list-1-2-1", tell_case("list", (1, 2, 1), None), tiers=("thorough",), time_s=240)
SUITE.add("dict-2-2", tell_case("dict", (2, 2), None), tiers=("thorough",), time_s=240)


@SUITE.case(time_s=60)
def warm(ctx):
    """warm-start data are part of the history but not of the budget"""
    P = [point(ctx, f"w{i}", ("A", "B") if i else ("C",)) for i in range(2)]
    Y = fvals(ctx, "w", 2, False)
    how = ctx.choice("how", ("list", "dict", "solution", "none"))
    mn = ctx.choice("minimize", (True, False))
    W = None
    if how == "list":
        W = ([list(p) for p in P], Y)
    elif how == "dict":
        W = ([as_dict(P[0]), as_dict(P[1], ("b", "d", "r", "i"))], Y)
    elif how == "solution":
        W = (Solution([list(p) for p in P], var_name=list(NAMES)), Y)
    opt = make(ctx, eval_type="dict" if how == "dict" else "list", warm_data=W, minimize=mn)
    if how == "none":
        ctx.check(opt.xopt is None and opt.eval_count == 0 and not opt.model.is_fitted, "no data")
        return
    check_state(ctx, opt, P, Y, 0, 0, mn, "warm start")
    std_ok(ctx, opt, P, Y, "warm start: model")
    q = point(ctx, "q")
    yq = ctx.real("yq", -50, 50)
    opt.tell([as_dict(q) if how == "dict" else list(q)], [yq])
    check_state(ctx, opt, P + [q], Y + [yq], 1, 1, mn, "after warm start")


@SUITE.case(time_s=60)
def best_history(ctx):
    """the best value reported never gets worse and ties keep the earlier point"""
    mn = ctx.choice("minimize", (True, False))
    quiet(ctx)
    opt = BO(search_space=RealSpace([-5, 5]), model=FakeModel(), minimize=mn, DoE_size=2, max_FEs=5)
    ctx.patch(opt, "update_model", lambda: None)
    ys = [ctx.real(f"y{i}", -5, 5) for i in range(3)]
    for i, y in enumerate(ys):
        opt.tell([[float(i)]], [y])
        best = ctx.min(ys[:i + 1]) if mn else ctx.max(ys[:i + 1])
        ctx.check(opt.xopt.fitness[0] == best, "best value")
        h = [np.ravel(v)[0] for v in opt.hist_f]
        ctx.check(len(h) == i + 1 and h[-1] == best, "history of best values")
        if i:
            ctx.check(h[i] <= h[i - 1] if mn else h[i] >= h[i - 1], "monotone")
        k = int(opt.xopt.tolist()[0])
        ctx.check(ctx.all([ys[k] == best] + [ctx.neg(ys[j] == best) for j in range(k)]), "first best point")
    ctx.check(opt.recommend() is not None and opt.recommend().tolist() == opt.xopt.tolist(), "recommendation")


@SUITE.case(time_s=60)
def first_batch_failed(ctx):
    """a first batch without any successful evaluation is counted, and later ones are recorded as usual"""
    opt = make(ctx)
    n = ctx.choice("n", (1, 2))
    P = [point(ctx, f"f{i}") for i in range(n)]
    opt.tell([list(p) for p in P], [(float("nan"), float("inf"))[ctx.choice(f"bad{i}", (0, 1))] for i in range(n)])
    ctx.check(opt.eval_count == n and opt.iter_count == 1 and opt.xopt is None, "the failed batch is counted")
    ctx.check(not opt.model.fits and not opt.model.is_fitted, "nothing to fit a model to")
    ctx.check(not opt.check_stop(), "the optimizer goes on")
    q, yq = point(ctx, "q"), ctx.real("yq", -50, 50)
    opt.tell([list(q)], [yq])
    ctx.check(opt.eval_count == n + 1 and opt.iter_count == 2, "counters")
    ctx.check(same_rows(ctx, opt.data.tolist(), [q]) and ctx.eq(opt.xopt.fitness[0], yq), "the first success is the best point")
