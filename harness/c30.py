"""C30  optimizers do not influence each other, nor the caller's data"""
import copy

import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.acquisition.acquisition_fun import MGFI
from bayes_optim.bayes_opt import BO, AnnealingBO, NoisyBO, ParallelBO, SelfAdaptiveBO
from bayes_optim.extension import MultiAcquisitionBO
from bayes_optim.search_space import RealSpace, SearchSpace
from bayes_optim.solution import Solution
from engine import sym
from engine.case import Suite
from harness.bo import NAMES, FakeModel, as_dict, make, mixed_space, point, quiet
from harness.c28 import Inner, Model, linear, value
from harness.lib import same_val

SUITE = Suite("C30", bounds=["two optimizers with arbitrary parameters, alternating calls of ask and tell, batches of two points", "points as lists, dicts and Solutions"],
              outside=["the global random generator", "changing a Solution or object array after it was told", "surrogate models shared by the caller between optimizers", "modifying the search space object during a run"],
              assumptions=["argmax_restart and SearchSpace.sample return arbitrary points", "the value of MGFI (C13) is replaced by a linear function of its parameters"])


def pair(cls, shared):
    def fn(ctx):
        linear(ctx)
        quiet(ctx)
        I = Inner(ctx)
        ctx.patch(np.random, "randn", lambda *a: 1.0)
        dflt = ctx.choice("default", (True, False))
        par = {} if dflt else {"acquisition_par": {"t": ctx.real("t", 0.2, 3)}}
        keep = copy.copy(par.get("acquisition_par"))
        aq = {"n_restart": 3, "max_FEs": 50, "wait_iter": 2}
        keep_aq = dict(aq)
        kw = {"t0": ctx.real("t0", 1, 4), "tf": ctx.real("tf", 0.1, 0.9), "schedule": "linear"} if cls is AnnealingBO else {}

        def new(c, **k):
            m = Model(ctx) if not models else FakeModelFrom(models[0])
            models.append(m)
            p = par if shared else copy.deepcopy(par) if not ctx.symbolic else {a: dict(b) for a, b in par.items()}
            o = c(search_space=RealSpace([-5, 5]), model=m, DoE_size=2, max_FEs=12, n_point=2, acquisition_fun="MGFI", acquisition_optimization=aq, **p, **k)

            def update(*a, **q):
                m.is_fitted = True
                o.fmin, o.fmax, o.frange = -1.0, 1.0, 2.0

            ctx.patch(o, "update_model", update)
            return o

        models = []
        other = ctx.choice("other", (ParallelBO, cls))
        B = new(other, **(kw if other is cls else {}))
        B.tell([[-4.75], [-4.5]], [1.0, 2.0])
        A = new(cls, **kw)
        A.tell([[-4.75], [-4.5]], [1.0, 2.0])
        for _ in range(2):
            A.ask()
        I.take()
        B.ask()
        got = [value(f) for f in I.take()]
        C = new(other, **(kw if other is cls else {}))
        C.tell([[-4.75], [-4.5]], [1.0, 2.0])
        C.ask()
        want = [value(f) for f in I.take()]
        # B, built before A ran, and C, built afterwards, do what an optimizer alone would do
        t = par["acquisition_par"]["t"] if not dflt else 2.0
        t = kw.get("t0", t) if other is AnnealingBO else t
        z = sym.fn1("exp", t * 1.0) if other is SelfAdaptiveBO else sym.fn1("exp", sym.fn1("log", t) + 0.5)
        ctx.assume(z <= 22)
        alone = 10 * z + (models[0].m if other is NoisyBO else -1.0) + models[0].m
        for v in got:
            ctx.check_near(v, alone, "another optimizer's run changes nothing", 1e-6)
        for v in want:
            ctx.check_near(v, alone, "earlier optimizers change nothing", 1e-6)
        ctx.check(A.eval_count == 2 and B.eval_count == 2 and len(A.data) == 2 and len(B.data) == 2, "own counters and data")
        ctx.check(A.stop_dict is not B.stop_dict and A.hist_f is not B.hist_f, "own containers")
        if keep is not None:
            d = par["acquisition_par"]
            ctx.check(set(d) == set(keep) and ctx.all([ctx.eq(d[k], keep[k]) for k in keep]), "the caller's parameters are kept")
        ctx.check(aq == keep_aq, "the caller's options are kept")

    fn.__doc__ = f"{cls.__name__} next to another optimizer, parameters {'shared' if shared else 'of their own'}"
    return fn


class FakeModelFrom(FakeModel):
    """a second model with the same prediction"""

    def __init__(self, m):
        super().__init__()
        self.m, self.s, self.ctx, self.at = m.m, m.s, m.ctx, m.at

    predict = Model.predict


for c in (ParallelBO, AnnealingBO, SelfAdaptiveBO, NoisyBO):
    SUITE.add(f"pair-{c.__name__}", pair(c, True), time_s=60)
SUITE.add("pair-own", pair(AnnealingBO, False), time_s=60)


def fitted(opt):
    opt.model.is_fitted, opt.fmin, opt.fmax, opt.frange = True, -1.0, 1.0, 2.0


def rows_eq(ctx, A, B):
    return len(A) == len(B) and ctx.all([same_val(ctx, a, b) for p, q in zip(A, B) for a, b in zip(p, q)])


def aliasing(mode, cls=BO):
    def fn(ctx):
        kw = {"n_point": 2, "acquisition_par": {"t": 2}} if cls is not BO else {}
        opt = make(ctx, cls, eval_type="dict" if mode == "dict" else "list", **kw)
        ctx.patch(opt, "update_model", lambda: fitted(opt))
        P = [point(ctx, f"p{i}", ("A",) if i else ("B",)) for i in range(2)]
        Y = [ctx.real(f"y{i}", -5, 5) for i in range(2)]
        if mode == "dict":
            X = [as_dict(p) for p in P]
        elif mode == "solution":
            X = Solution([list(p) for p in P], var_name=list(NAMES))
        elif mode == "array":
            X = np.array([list(p) for p in P], dtype=object)
        else:
            X = [list(p) for p in P]
        y = list(Y) if ctx.choice("y", ("list", "array")) == "list" else np.array(Y, dtype=object if ctx.symbolic else float)
        opt.tell(X, y)
        if mode == "dict":
            ctx.check(all(list(x) == list(NAMES) for x in X) and rows_eq(ctx, [list(x.values()) for x in X], P), "the points passed in are kept")
        else:
            ctx.check(rows_eq(ctx, [list(r) for r in (X.tolist() if not isinstance(X, list) else X)], P), "the points passed in are kept")
        ctx.check(ctx.seq_eq(list(y), Y), "the values passed in are kept")
        junk = point(ctx, "j", ("C",))
        for i in range(2 if mode in ("list", "dict") else 0):
            if mode == "dict":
                X[i].update(as_dict(junk))
            else:
                X[i][:] = junk
            y[i] = 99.0
        ctx.check(rows_eq(ctx, opt.data.tolist(), P) and ctx.seq_eq(list(np.asarray(opt.data.fitness).ravel()), Y), "later changes of the caller's data do not reach the optimizer")
        # what the optimizer hands out is the caller's
        ctx.patch(base_mod, "argmax_restart", lambda *a, **k: (list(junk), 0.5))
        ctx.assume(ctx.all([junk[0] - p[0] > 0.5 for p in P]))
        fixed = {"i": ctx.int("fi", 0, 9)} if cls is BO and ctx.choice("fixed", (True, False)) else None
        if fixed:
            ctx.patch(base_mod, "argmax_restart", lambda *a, **k: ([junk[0], junk[2], junk[3]], 0.5))
        keep = dict(fixed) if fixed else None
        Q = opt.ask(n_point=1, fixed=fixed)
        ctx.check(fixed is None or (set(fixed) == set(keep) and ctx.eq(fixed["i"], keep["i"])), "the caller's fixed values are kept")
        for q in Q:
            for k in (list(q) if mode == "dict" else range(4)):
                q[k] = None
        ctx.check(rows_eq(ctx, opt.data.tolist(), P), "points handed out are copies")

    fn.__doc__ = f"{cls.__name__}: points as {mode}"
    return fn


for m in ("list", "dict", "solution", "array"):
    SUITE.add(f"aliasing-{m}", aliasing(m), time_s=60)


@SUITE.case(time_s=60)
def space_kept(ctx):
    """running an optimizer leaves the search space of the caller alone"""
    sp = mixed_space(precision=2, step=2)
    ref = [(v.name, tuple(v.bounds), v.default_value, type(v).__name__, getattr(v, "precision", None), getattr(v, "step", None)) for v in sp.data]
    opt = make(ctx, BO, space=sp, eval_type=ctx.choice("eval", ("list", "dict")))
    dct = opt._eval_type == "dict"
    ctx.patch(opt, "update_model", lambda: fitted(opt))
    p, q = point(ctx, "p"), point(ctx, "q", ("C",))
    ctx.assume(q[0] - p[0] > 0.5)
    ctx.patch(base_mod, "argmax_restart", lambda *a, **k: (list(q), 0.5))
    u = [1.5, 4, "A", False]
    ctx.patch(SearchSpace, "sample", lambda self, N=1, *a, **k: np.array([[u[0] + i] + u[1:] for i in range(N)], dtype=object))
    opt.ask()
    opt.tell([as_dict(p) if dct else list(p)], [ctx.real("y", -5, 5)])
    opt.ask()
    got = [(v.name, tuple(v.bounds), v.default_value, type(v).__name__, getattr(v, "precision", None), getattr(v, "step", None)) for v in sp.data]
    ctx.check(got == ref and list(sp.var_name) == list(NAMES), "variables of the space")
    o2 = make(ctx, BO, space=sp)
    ctx.check(o2.eval_count == 0 and o2.xopt is None and list(o2.var_names) == list(NAMES), "a second optimizer on the same space starts afresh")
