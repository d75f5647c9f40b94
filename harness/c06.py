"""C06  equality, hashing and membership of variables, spaces and points"""
import numpy as np

from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, RealSpace, SearchSpace, Subset
from engine import sym
from engine.case import Suite

SUITE = Suite("C06", bounds=["pairs of variables of every type with arbitrary numeric bounds/defaults and up to three options per other attribute",
                             "spaces of up to three variables in every order", "points of up to three coordinates, arbitrary numeric values"],
              outside=["conditions and actions attached to a variable are not part of equality",
                       "integers are accepted by range only (the step is not part of membership)"])


def var(ctx, k, t, numeric):
    nm = ctx.choice(f"{t}.name", ("a", "b"))
    if k == "Real":
        lo, hi = numeric(f"{t}.lb"), numeric(f"{t}.ub")
        p = ctx.choice(f"{t}.p", (None, 1, 2))
        sc = ctx.choice(f"{t}.s", ("linear", "bilog"))
        ctx.assume(lo < hi)
        return Real([lo, hi], nm, precision=p, scale=sc), (k, nm, lo, hi, p, sc)
    if k == "Integer":
        lo, hi = numeric(f"{t}.lb"), numeric(f"{t}.ub")
        ctx.assume(lo < hi)
        st = ctx.choice(f"{t}.st", (1, 2))
        return Integer([lo, hi], nm, step=st), (k, nm, lo, hi, st)
    if k in ("Ordinal", "Discrete"):
        lv = ctx.choice(f"{t}.lv", ((1, 2), (1, 2, 3), (2, 1)))
        d = ctx.choice(f"{t}.d", (None, 1, 2))
        return (Ordinal if k == "Ordinal" else Discrete)(list(lv), nm, default_value=d), (k, nm, lv, d)
    if k == "Bool":
        d = ctx.choice(f"{t}.d", (None, True, False))
        return Bool(nm, default_value=d), (k, nm, d)
    lv = ctx.choice(f"{t}.lv", (("p", "q"), ("p", "r")))
    return Subset(list(lv), nm), (k, nm, lv)


def agree(ctx, a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if sym.is_sym(x) or sym.is_sym(y):
            out.append(x == y)
        else:
            out.append(type(x) is type(y) and x == y)
    return ctx.all(out)


def eq_case(k):
    def fn(ctx):
        num = (lambda n: ctx.choice(n, (0, 1, 2))) if k == "Integer" else (lambda n: ctx.choice(n, (0.0, 1.0) if n.endswith("lb") else (2.5,)))
        v, dv = var(ctx, k, "v", num)
        w, dw = var(ctx, k, "w", num)
        e = v == w
        ctx.check(bool(e) == bool(agree(ctx, dv, dw)), "equal exactly when every attribute agrees")
        ctx.check((v != w) == (not e), "!= is the negation")
        if e:
            ctx.check(hash(v) == hash(w), "equal variables have equal hashes")
            ctx.check(len({v, w}) == 1 and v in [w], "usable in sets")

    fn.__doc__ = f"{k}: all pairs"
    return fn


for _k in ("Real", "Integer", "Ordinal", "Discrete", "Bool", "Subset"):
    SUITE.add("eq-" + _k, eq_case(_k), time_s=60)


@SUITE.case()
def eq_symbolic(ctx):
    """Real/Integer with arbitrary bounds; different types are never equal"""
    k = ctx.choice("k", ("Real", "Integer"))
    num = (lambda n: ctx.real(n, -5, 5)) if k == "Real" else (lambda n: ctx.int(n, -5, 5))
    v, dv = var(ctx, k, "v", num)
    w, dw = var(ctx, k, "w", num)
    e = v == w
    ctx.check(ctx.iff(e if sym.is_sym(e) else bool(e), agree(ctx, dv, dw)), "equal exactly when every attribute agrees")
    o = Discrete([1, 2], "a")
    ctx.check(not (v == o) and not (o == v) and v != o, "different types differ")


@SUITE.case()
def space_eq(ctx):
    """spaces are equal up to the order of their variables"""
    vs = lambda: [Real([0, 1], "a", precision=2), Integer([0, 5], "b"), Discrete(["x", "y"], "c")]
    A = SearchSpace(vs())
    order = ctx.choice("o", ((0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)))
    w = vs()
    ch = ctx.choice("change", (None, "bounds", "name", "precision", "drop", "type", "step", "level"))
    if ch == "bounds":
        w[0] = Real([0, 2], "a", precision=2)
    elif ch == "name":
        w[1] = Integer([0, 5], "bb")
    elif ch == "precision":
        w[0] = Real([0, 1], "a", precision=1)
    elif ch == "type":
        w[1] = Real([0, 5], "b")
    elif ch == "step":
        w[1] = Integer([0, 5], "b", step=2)
    elif ch == "level":
        w[2] = Discrete(["x", "z"], "c")
    w = [w[i] for i in order]
    if ch == "drop":
        w = w[:2]
    B = SearchSpace(w)
    ctx.check((A == B) == (ch is None) and (B == A) == (ch is None), "space equality")
    ctx.check((A != B) == (ch is not None), "space inequality")
    ctx.check((B in A) == (ch in (None, "drop")), "subspace membership")
    for i, v in enumerate(vs()):
        ctx.check(v in A, "variable membership")


def inside(ctx, v, x):
    k = type(v).__name__
    if k in ("Real", "Integer"):
        return ctx.all([x >= v.bounds[0], x <= v.bounds[1]])
    return any(x == l and type(x) is type(l) for l in v.bounds)


@SUITE.case()
def point_in(ctx):
    """membership of points given as list or dict"""
    lb, ub = ctx.real("lb", -9, 9), ctx.real("ub", -9, 9)
    il, iu = ctx.int("il", -9, 9), ctx.int("iu", -9, 9)
    ctx.assume(ctx.all([lb < ub, il < iu]))
    sc = ctx.choice("sc", ("linear", "bilog"))
    vs = [Real([lb, ub], "r", scale=sc), Integer([il, iu], "i"), ctx.choice("third", (Discrete(["x", 3, True], "t"), Ordinal([1, 5], "t"), Bool("t"), Subset(["p", "q"], "t")))]
    perm = ctx.choice("perm", ((0, 1, 2), (2, 1, 0), (1, 2, 0)))
    S = SearchSpace([vs[i] for i in perm])
    val = {"r": ctx.real("r", -20, 20), "i": ctx.int("i", -20, 20),
           "t": ctx.choice("t", {"Discrete": ("x", 3, "y", 7), "Ordinal": (1, 5, 3), "Bool": (True, False, "no"), "Subset": (("p",), ("p", "q"), ("q", "p"), ("z",))}[type(vs[2]).__name__])}
    want = ctx.all([inside(ctx, v, val[v.name]) for v in vs])
    how = ctx.choice("how", ("list", "dict"))
    item = [val[v.name] for v in S.data] if how == "list" else val
    got = item in S
    ctx.check(ctx.iff(got, want), "a point is in the space exactly when every coordinate is")
    for v in S.data:
        g = val[v.name] in v
        ctx.check(ctx.iff(g, inside(ctx, v, val[v.name])), "membership in a variable")
    ctx.check(("r" in S) and ("zz" not in S), "names")
    ctx.observe("in", bool(got))
