"""C23  saving and loading an optimizer keeps its state; saving never harms it"""
import os
import shutil
import tempfile

import numpy as np

import bayes_optim.base as base_mod
import dill
from bayes_optim.bayes_opt import BO, NoisyBO, ParallelBO
from bayes_optim.search_space import SearchSpace
from engine.case import Suite
from harness.bo import FakeModel, as_dict, mixed_space, point, quiet
from harness.lib import same_val

SUITE = Suite("C23", bounds=["optimizers with zero to two told points with arbitrary values, with and without failed evaluations", "a fault (an exception) at any of the serialisation calls of a save"],
              outside=["files of other versions, kill signals during a save"],
              assumptions=["dill is the real one; symbolic values are pickled by reference"])


def objective(x):
    return 0.0


def con(x):
    return [x[0] - 1.0]


class ListArg:
    """func_with_list_arg (decided by C22), which can be pickled by reference"""

    def __init__(self, func, arg_type, var_names):
        self.func, self.arg_type, self.names = func, arg_type, list(var_names)

    def __call__(self, X):
        X = np.atleast_2d(np.array(X, dtype=object))
        return np.array([self.func(dict(zip(self.names, r)) if self.arg_type == "dict" else list(r)) for r in X.tolist()]).ravel()


def state(o):
    d = getattr(o, "data", None)
    if d is not None and not hasattr(d, "fitness"):
        return {"n": -1}
    out = {"n": 0 if d is None else len(d), "eval_count": o.eval_count, "iter_count": o.iter_count, "minimize": o.minimize, "max_FEs": o.max_FEs, "n_point": o.n_point,
           "names": list(o.search_space.var_name), "par": {k: v for k, v in o._acquisition_par.items() if k in ("t", "alpha")}}
    if d is not None:
        out["rows"] = [list(r) for r in d.tolist()]
        out["fit"] = list(np.asarray(d.fitness).ravel())
        out["n_eval"] = [int(v) for v in np.asarray(d.n_eval).ravel()]
        out["index"] = [str(v) for v in np.asarray(d.index).ravel()]
        out["vn"] = list(d.var_name)
        x = o.xopt
        out["xopt"], out["fopt"] = list(x.tolist()), x.fitness[0]
    return out


def same_state(ctx, a, b, label):
    for k in ("n", "eval_count", "iter_count", "minimize", "max_FEs", "n_point", "names", "par", "n_eval", "index", "vn"):
        ctx.check(a.get(k) == b.get(k), f"{label}: {k}")
    ctx.check(set(a) == set(b), f"{label}: data")
    if "rows" in a and "rows" in b and a["n"] == b["n"]:
        ctx.check(ctx.all([same_val(ctx, u, v) for p, q in zip(a["rows"], b["rows"]) for u, v in zip(p, q)]), f"{label}: points")
        ctx.check(ctx.all([u == v for u, v in zip(a["fit"], b["fit"])]), f"{label}: objective values")
        ctx.check(ctx.all([same_val(ctx, u, v) for u, v in zip(a["xopt"], b["xopt"])] + [a["fopt"] == b["fopt"]]), f"{label}: best point")


def build(ctx, cls, n, mode="list", ineq=False, simple=False):
    quiet(ctx)
    kw = {"n_point": 2} if cls is ParallelBO else {}
    if ineq:
        kw["ineq_fun"] = con
        ctx.patch(base_mod, "func_with_list_arg", ListArg)
    o = cls(search_space=mixed_space(), obj_fun=objective, model=FakeModel(), DoE_size=2, max_FEs=7, eval_type=mode, minimize=True if simple else ctx.choice("minimize", (True, False)), ftarget=-99.0, **kw)
    P = [point(ctx, f"p{i}") for i in range(n)]
    Y = [ctx.real(f"y{i}", -5, 5) for i in range(n)]
    if n:
        fail = simple or ctx.choice("failed", (False, True))
        extra = [0.5, 3, "B", False]
        X, F = [list(p) for p in P] + [extra] * fail, Y + [np.nan] * fail
        o.tell([as_dict(p) for p in X] if mode == "dict" else X, F)
    return o


def roundtrip(cls, n, mode="list", ineq=False, simple=False):
    def fn(ctx):
        o = build(ctx, cls, n, mode, ineq, simple)
        before = state(o)
        lg = o.logger
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        try:
            f = os.path.join(d, "new" if simple or ctx.choice("folder", (False, True)) else "", "opt.dump")
            o.save(f)
            same_state(ctx, before, state(o), "saving changes nothing")
            ctx.check(o.logger is lg, "the logger is kept")
            q = cls.load(f)
        finally:
            shutil.rmtree(d)
        ctx.check(type(q) is type(o), "type of the loaded optimizer")
        same_state(ctx, before, state(q), "loading restores")
        ctx.check(hasattr(q.logger, "info") and q.logger.name == lg.name, "a usable logger")
        if ineq:
            r = q._g([[0.25, 3, "A", True]])
            ctx.check(len(r) == 1 and r[0] == -0.75, "constraints work")
        # both go on alike
        X = [[4.0, 1, "C", True]]
        y = ctx.real("next", -5, 5)
        for w in (o, q):
            w.tell([as_dict(X[0])] if mode == "dict" else [list(X[0])], [y])
        same_state(ctx, state(o), state(q), "the loaded optimizer goes on alike")
        ctx.check(len(o.data) == n + 1, "the new point is recorded")
        fa, fb = o.model.fits[-1], q.model.fits[-1]
        ctx.check(ctx.all([ctx.near(u, v, 1e-9) for u, v in zip(fa[1], fb[1])]) and len(fa[0]) == len(fb[0]), "the model is fitted alike")

    fn.__doc__ = f"{cls.__name__}, {n} points, {mode}{', constraint' if ineq else ''}: save and load"
    return fn


for c, n, m, i in ((BO, 0, "list", False), (BO, 1, "list", True), (ParallelBO, 1, "dict", False), (NoisyBO, 1, "list", False)):
    SUITE.add(f"roundtrip-{c.__name__}-{n}-{m}", roundtrip(c, n, m, i), time_s=60)
SUITE.add("roundtrip-BO-2-list", roundtrip(BO, 2, simple=True), time_s=60)
SUITE.add("roundtrip-BO-2-list-con", roundtrip(BO, 2, ineq=True), tiers=("thorough",), time_s=240)
SUITE.add("roundtrip-ParallelBO-2-dict", roundtrip(ParallelBO, 2, "dict"), tiers=("thorough",), time_s=240)
SUITE.add("roundtrip-BO-3", roundtrip(BO, 3), tiers=("thorough",), time_s=240)


class Fault(Exception):
    pass


def faulty(n):
    def fn(ctx):
        """whatever serialisation call fails, the optimizer stays as it was"""
        o = build(ctx, BO, n)
        before = state(o)
        lg = o.logger
        k = ctx.choice("fault", (0, 1, 2))  # data (if any), logger, optimizer
        cnt = [0]
        real = {"dumps": dill.dumps, "dump": dill.dump}

        def wrap(name):
            def f(*a, **kw):
                cnt[0] += 1
                if cnt[0] - 1 == k:
                    raise Fault()
                return real[name](*a, **kw)

            return f

        ctx.patch(dill, "dumps", wrap("dumps"))
        ctx.patch(dill, "dump", wrap("dump"))
        d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        failed = False
        try:
            try:
                o.save(os.path.join(d, "opt.dump"))
            except Fault:
                failed = True
            ctx.patch(dill, "dumps", real["dumps"])
            ctx.patch(dill, "dump", real["dump"])
            ctx.check(o.logger is lg, "the logger is kept")
            same_state(ctx, before, state(o), "a failed save changes nothing")
            o.tell([[4.0, 1, "C", True]], [ctx.real("next", -5, 5)])
            ctx.check(len(o.data) == n + 1, "the optimizer goes on")
            o.save(os.path.join(d, "opt2.dump"))
            q = BO.load(os.path.join(d, "opt2.dump"))
            same_state(ctx, state(o), state(q), "a later save works")
        finally:
            shutil.rmtree(d)

    fn.__doc__ = f"faults during a save, {n} points"
    return fn


for n in (0, 1):
    SUITE.add(f"fault-{n}", faulty(n), time_s=60)
SUITE.add("fault-2", faulty(2), tiers=("thorough",), time_s=240)
