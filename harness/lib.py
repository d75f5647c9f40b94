"""Shared pieces of the harnesses (run on symbolic and on concrete values alike)."""
import numpy as np

from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, Subset
from engine import sym

INT = (int, np.integer)
FLT = (float, np.floating)


def ty(v):
    """python type a value stands for"""
    t = type(v)
    if t in sym._SYMTYPES:
        return v.__class__
    if isinstance(v, np.bool_):
        return bool
    if isinstance(v, np.integer):
        return int
    if isinstance(v, np.floating):
        return float
    return t


def on_grid(ctx, v, p, lo, hi):
    """v is a multiple of 10**-p, or one of the bounds"""
    if sym.is_sym(v) or sym.is_sym(lo) or sym.is_sym(hi):
        t = sym.to_real(v) * (10**p)
        ks = [sym.mkbool(t == sym.Z.ToReal(k)) for k in ctx.rints]
        return ctx.any(ks + [sym.mkbool(sym.Z.IsInt(t)), v == lo, v == hi])
    if not np.isfinite(v):
        return False
    return abs(v * 10**p - round(v * 10**p)) < 1e-6 * max(1, abs(v) * 10**p) or v == lo or v == hi


def member(ctx, var, v, grid=True):
    """v is a value the variable may take (type, range, precision, step)"""
    k = type(var).__name__
    if k == "Real":
        if ty(v) not in (float, int):
            return False
        lo, hi = var.bounds
        c = [v >= lo, v <= hi]
        if grid and var.precision is not None:
            c.append(on_grid(ctx, v, var.precision, lo, hi))
        return ctx.all(c)
    if k == "Integer":
        if ty(v) is not int:
            return False
        lo, hi = var.bounds
        c = [v >= lo, v <= hi]
        if grid and var.step != 1:
            c.append((v - lo) % var.step == 0)
        return ctx.all(c)
    if k == "Bool":
        return ty(v) is bool
    levels = list(var.bounds)
    return ctx.any([same_val(ctx, v, l) for l in levels])


def same_val(ctx, a, b):
    """equal value and equal kind (1, 1.0 and True and "1" all differ)"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return ctx.all([same_val(ctx, x, y) for x, y in zip(a, b)])
    if ty(a) is not ty(b) or (isinstance(a, str) != isinstance(b, str)):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
    r = ctx.eq(a, b)
    return r if sym.is_sym(r) else bool(r)


def row_ok(ctx, space, row, grid=True):
    row = list(row)
    if len(row) != len(space.data):
        return False
    return ctx.all([member(ctx, var, v, grid) for var, v in zip(space.data, row)])


LEVELS = ["A", 2, 2.5, True]
NAMES = ("Real", "Integer", "Ordinal", "Discrete", "Bool", "Subset")


def make_var(ctx, kind, tag, lo=-20, hi=20, symbolic=True, **kw):
    """a variable of the given kind whose numeric bounds are symbolic"""
    if kind == "Real":
        a, b = ctx.real(f"{tag}.lb", lo, hi), ctx.real(f"{tag}.ub", lo, hi)
        ctx.assume(a + 0.01 <= b)
        return Real([a, b], name=tag, **kw)
    if kind == "Integer":
        a, b = ctx.int(f"{tag}.lb", lo, hi), ctx.int(f"{tag}.ub", lo, hi)
        ctx.assume(a < b)
        return Integer([a, b], name=tag, **kw)
    if kind == "Ordinal":
        return Ordinal([1, 3, 7], name=tag, **kw)
    if kind == "Discrete":
        return Discrete(["A", "B", 2], name=tag, **kw)
    if kind == "Bool":
        return Bool(name=tag, **kw)
    return Subset(["u", "v"], name=tag, **kw)


def draws(ctx):
    """the scalar RNG draws made so far"""
    r = ctx.user.get("rng")
    return list(r.cache.values()) if r is not None else []
