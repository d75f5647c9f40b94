"""C01  sampled points lie in the declared search space"""
import numpy as np

from bayes_optim.search_space import (Bool, BoolSpace, Discrete, DiscreteSpace, Integer, IntegerSpace, Ordinal, OrdinalSpace, Real,
                                      RealSpace, SearchSpace, Subset, SubsetSpace)
from engine.case import Suite
from harness.lib import NAMES, make_var, member, row_ok

SUITE = Suite("C01", bounds=["one to three points from spaces of one to three variables of every type; arbitrary bounds, generator outcomes in [0, 1), precision none or 0..2, steps, uniform sampling and LHS, every scale"],
              outside=["the distribution of the sample", "more than three points (each point is drawn in the same way)"],
              assumptions=["the generators return arbitrary values of their documented range", "log, exp and the other scalings are uninterpreted, monotone and inverse to each other"])


def real_case(scale, lo, hi):
    def fn(ctx):
        method = ctx.choice("method", ["uniform", "LHS"])
        prec = ctx.choice("prec", [None, 0, 1, 2])
        N = ctx.choice("N", [1, 2, 3])
        lb, ub = ctx.real("lb", lo, hi), ctx.real("ub", lo, hi)
        ctx.assume(lb + 1e-3 <= ub)
        s = RealSpace([lb, ub], precision=prec, scale=scale)
        ctx.check(ctx.all([s.data[0].bounds[0] == lb, s.data[0].bounds[1] == ub]), "bounds kept")
        X = s.sample(N, method=method)
        ctx.check(X.shape == (N, 1), "shape")
        for i in range(N):
            ctx.check(member(ctx, s.data[0], X[i, 0]), "in range / precision")
            ctx.observe("x", X[i, 0])

    return fn


for scale, lo, hi in (("linear", -100, 100), ("log", 1e-3, 1e3), ("log10", 1e-3, 1e3), ("bilog", -50, 50), ("logit", 0.01, 0.99)):
    SUITE.add(f"real-{scale}", real_case(scale, lo, hi), exp_mul=scale == "logit")


@SUITE.case()
def real_sobol(ctx):
    """Sobol points: 3 x 2, symbolic bounds"""
    v = [make_var(ctx, "Real", f"r{i}", precision=p) for i, p in enumerate((None, 1))]
    s = SearchSpace(v)
    X = s.sample(3, method="sobol")
    ctx.check(X.shape == (3, 2), "shape")
    for r in X:
        ctx.check(row_ok(ctx, s, r), "in space")


@SUITE.case()
def real_multi(ctx):
    """two reals of different range, precision, scale: every column uses its own variable"""
    s = RealSpace([[-5, 5], [100, 200]], precision=[1, 2]) if ctx.choice("how", [0, 1]) else SearchSpace(
        [Real([-5, 5], "a", precision=1), Real([100, 200], "b", scale="log", precision=2)])
    method = ctx.choice("method", ["uniform", "LHS", "sobol"])
    X = s.sample(2, method=method)
    ctx.check(X.shape == (2, 2), "shape")
    for r in X:
        ctx.check(row_ok(ctx, s, r), "in space")


@SUITE.case()
def integer(ctx):
    """integer ranges, steps 1..3, N <= 3"""
    step = ctx.choice("step", [1, 2, 3])
    N = ctx.choice("N", [1, 2, 3])
    lb, ub = ctx.int("lb", -30, 30), ctx.int("ub", -30, 30)
    ctx.assume(lb < ub)
    s = IntegerSpace([lb, ub], step=step)
    X = s.sample(N)
    ctx.check(X.shape == (N, 1), "shape")
    for i in range(N):
        ctx.check(member(ctx, s.data[0], X[i, 0]), "integer in range on the step grid")
        ctx.observe("x", X[i, 0])


@SUITE.case()
def integer_reach(ctx):
    """every integer of the range can be drawn"""
    ub = ctx.int("ub", 1, 6)
    t = ctx.int("t", 0, 6)
    ctx.assume(t <= ub)
    s = IntegerSpace([0, ub])
    # one draw is a fixed function of the RNG outcome: the set of draws over all outcomes is the range
    X = s.sample(1)
    ctx.assume(X[0, 0] == t)
    ctx.reach("value")
    ctx.check(True, "reachable")


def mixed(types):
    def fn(ctx):
        v = [make_var(ctx, k, f"v{i}") for i, k in enumerate(types)]
        s = SearchSpace(v)
        N = ctx.choice("N", [1, 2])
        X = s.sample(N)
        ctx.check(X.shape == (N, len(types)), "shape")
        for r in X:
            ctx.check(row_ok(ctx, s, r), "in space")

    return fn


def mixed_any(ctx):
    """any sequence of three variable types"""
    k = [ctx.choice(f"k{i}", NAMES) for i in range(3)]
    v = [make_var(ctx, t, f"v{i}") for i, t in enumerate(k)]
    s = SearchSpace(v)
    X = s.sample(1, method="uniform")
    ctx.check(X.shape == (1, 3), "shape")
    ctx.check(row_ok(ctx, s, X[0]), "in space")
    ctx.observe("X", list(X[0]))


SUITE.add("mixed-any-3", mixed_any, witnesses=12)
SUITE.add("mixed-all", mixed(("Bool", "Real", "Discrete", "Integer", "Ordinal", "Real")))


@SUITE.case()
def typed_spaces(ctx):
    """single-type spaces of dimension 2"""
    k = ctx.choice("k", ["o", "d", "b", "s"])
    N = ctx.choice("N", [1, 2])
    if k == "o":
        s = OrdinalSpace([[1, 5, 9], ["lo", "hi"]])
    elif k == "d":
        s = DiscreteSpace([["A", "B"], [1, 2.5, "x"]])
    elif k == "b":
        s = BoolSpace() * 2
    else:
        s = SubsetSpace([["p", "q"], ["x", "y"]])
    X = s.sample(N)
    ctx.check(X.shape == (N, 2), "shape")
    for r in X:
        ctx.check(row_ok(ctx, s, r), "in space")


@SUITE.case(witnesses=64)
def real_edge(ctx):
    """the extreme outcomes of the generator, at concrete bounds (each path is also run on floats)"""
    scale = ctx.choice("scale", ["linear", "log", "log10", "bilog", "logit"])
    lb, ub = ctx.choice("b", [(0.011, 0.37), (0.1, 0.7), (0.03, 0.97)])
    s = RealSpace([lb, ub], scale=scale)
    X = s.sample(1)
    e = ctx.choice("edge", [0, 1])
    from harness.lib import draws

    for r in draws(ctx):
        ctx.assume(r == (0.0 if e == 0 else 1 - 2.0**-53))
    ctx.check(member(ctx, s.data[0], X[0, 0]), "in range at the edge")
