"""Shared pieces for the optimizer harnesses: a surrogate model with arbitrary predictions, small spaces, builders."""
import numpy as np

import bayes_optim.base as base_mod
from bayes_optim.bayes_opt import BO, NoisyBO, ParallelBO
from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, RealSpace, SearchSpace, Subset
from engine import sym


class FakeModel:
    """remembers what it is fitted to; predictions are given"""

    def __init__(self, gradient=False):
        self.is_fitted = False
        self.fits = []
        if gradient:
            self.gradient = lambda X: (np.zeros((1, np.shape(X)[1])), np.zeros((1, np.shape(X)[1])))

    def fit(self, X, y):
        self.fits.append(([list(r) for r in np.atleast_2d(X).tolist()], list(np.asarray(y).ravel())))
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        n = len(np.atleast_2d(X))
        y = np.zeros(n)
        return (y, np.ones(n)) if eval_MSE else y


def quiet(ctx):
    """goodness-of-fit figures that are only logged"""
    ctx.patch(base_mod, "r2_score", lambda *a, **k: 0.0)
    ctx.patch(base_mod, "mean_absolute_percentage_error", lambda *a, **k: 0.0)


def mixed_space(ctx=None, precision=None, step=1):
    return SearchSpace([Real([-5, 5], "r", precision=precision), Integer([0, 9], "i", step=step), Discrete(["A", "B", "C"], "d"), Bool("b")])


def make(ctx, cls=BO, space=None, **kw):
    quiet(ctx)
    kw.setdefault("model", FakeModel())
    kw.setdefault("DoE_size", 2)
    kw.setdefault("max_FEs", 10)
    return cls(search_space=space if space is not None else mixed_space(), **kw)


def point(ctx, t, levels=("A", "B")):
    return [ctx.real(f"{t}.r", -5, 5), ctx.int(f"{t}.i", 0, 9), levels[0], True]


NAMES = ("r", "i", "d", "b")


def as_dict(p, order=NAMES):
    d = dict(zip(NAMES, p))
    return {k: d[k] for k in order}
