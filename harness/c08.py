"""C08  the Solution container: points, objective values, evaluation counts and names stay together"""
import os

import numpy as np

from bayes_optim.solution import Solution
from engine.case import Suite
from harness.lib import same_val

SUITE = Suite("C08", bounds=["up to three points of up to three coordinates (numbers arbitrary; strings, booleans and tuples fixed), one or two objectives",
                             "every row index, slice, list and mask; every column index, slice and list"],
              outside=["higher-dimensional indexing, Ellipsis and newaxis", "copies made by pickle or copy.copy"])
NAME = ("a", "b", "c")


def table(ctx, n, d=3, t="s"):
    """rows of (arbitrary number, level, arbitrary number)"""
    mid = ctx.choice(t + ".mid", ("str", "tuple", "first"))
    rows = []
    for i in range(n):
        r = [ctx.real(f"{t}{i}.0", -9, 9), ("u", "v") if mid == "tuple" and i % 2 else ("u",) if mid == "tuple" else "L%d" % i, ctx.int(f"{t}{i}.2", -9, 9)]
        if mid == "first":
            r[0] = ("p",) if i else ("p", "q")
        rows.append(r[:d])
    return rows


def fit(ctx, n, m, t="f"):
    if m == 1:
        return [ctx.real(f"{t}{i}", -50, 50) for i in range(n)]
    return [[ctx.real(f"{t}{i}.{j}", -50, 50) for j in range(m)] for i in range(n)]


def build(ctx, n=3, t="s", m=None):
    rows = table(ctx, n, t=t)
    m = ctx.choice(t + ".m", (1, 2)) if m is None else m
    f = fit(ctx, n, m, t + "f")
    ne = [ctx.int(f"{t}ne{i}", 0, 9) for i in range(n)]
    idx = ["i%d" % i for i in range(n)]
    S = Solution([list(r) for r in rows], fitness=f, n_eval=list(ne) if not ctx.symbolic else [int(v) if not hasattr(v, "t") else v for v in ne],
                 index=list(idx), var_name=list(NAME), n_obj=m)
    return S, rows, f, ne, idx, m


def flat(v):
    return list(np.asarray(v).ravel())


def expect(ctx, S, rows, f, ne, idx, names, m, label):
    n = len(rows)
    two = S.ndim == 2
    ctx.check(S.ndim in (1, 2) and (two or n == 1), label + ": shape")
    X = S.tolist() if two else [S.tolist()]
    ctx.check(S.N == n and S.dim == len(names), label + ": N and dim")
    ctx.check(len(X) == n and all(len(r) == len(names) for r in X), label + ": size")
    ctx.check(ctx.all([same_val(ctx, X[i][k], rows[i][k]) for i in range(n) for k in range(len(names))]), label + ": values")
    want = [v for r in f for v in (r if isinstance(r, (list, tuple)) else [r])]
    got = flat(S.fitness)
    ctx.check(len(got) == len(want) and ctx.all([g == w for g, w in zip(got, want)]), label + ": fitness")
    ctx.check(len(flat(S.n_eval)) == n and ctx.all([g == w for g, w in zip(flat(S.n_eval), ne)]), label + ": n_eval")
    ctx.check([str(v) for v in flat(S.index)] == list(idx), label + ": index")
    ctx.check(list(S.var_name) == list(names), label + ": var_name")
    ctx.check(S.n_obj == m and len(S.fitness_name) == m, label + ": n_obj")


@SUITE.case()
def construct(ctx):
    """construction keeps everything given"""
    n = ctx.choice("n", (1, 2, 3))
    S, rows, f, ne, idx, m = build(ctx, n)
    expect(ctx, S, rows, f, ne, idx, NAME, m, "construction")
    rows1 = table(ctx, 1, t="one")
    T = Solution(list(rows1[0]), var_name=list(NAME), fitness=3.0)
    ctx.check(T.ndim == 1 and T.N == 1 and T.dim == 3, "one point")
    ctx.check(ctx.all([same_val(ctx, a, b) for a, b in zip(T.tolist(), rows1[0])]), "one point: values")
    ctx.check(float(T.fitness[0]) == 3.0 and T.n_eval[0] == 0, "one point: defaults")


@SUITE.case()
def rows_(ctx):
    """selecting rows takes along fitness, n_eval and index"""
    S, rows, f, ne, idx, m = build(ctx)
    a, b = ctx.choice("a", (0, 1, 2)), ctx.choice("b", (0, 1, 2))
    how = ctx.choice("how", ("int", "neg", "npint", "slice", "list", "mask", "array", "row-all", "rev"))
    if how == "int":
        sel, T = [a], S[a]
    elif how == "neg":
        sel, T = [a], S[a - 3]
    elif how == "npint":
        sel, T = [a], S[np.int64(a)]
    elif how == "slice":
        sel = list(range(3))[a:b + 1]
        if not sel:
            return
        T = S[a:b + 1]
    elif how == "list":
        sel, T = [a, b], S[[a, b]]
    elif how == "array":
        sel, T = [a, b], S[np.array([a, b])]
    elif how == "mask":
        sel = sorted({a, b})
        T = S[[i in sel for i in range(3)]]
    elif how == "row-all":
        sel, T = [a], S[a, :]
    else:
        sel, T = [2, 1, 0], S[::-1]
    ctx.check((T.ndim == 1) == (how in ("int", "neg", "npint", "row-all")), "dimension")
    expect(ctx, T, [rows[i] for i in sel], [f[i] for i in sel], [ne[i] for i in sel], [idx[i] for i in sel], NAME, m, "rows")
    expect(ctx, S, rows, f, ne, idx, NAME, m, "original")


@SUITE.case()
def cols_(ctx):
    """selecting columns (of all, some or one row) takes along the names"""
    S, rows, f, ne, idx, m = build(ctx)
    a, b = ctx.choice("a", (0, 1, 2)), ctx.choice("b", (1, 2))
    rsel, ri = ctx.choice("r", (([0, 1, 2], slice(None)), ([1, 2], slice(1, 3)), ([0, 2], [True, False, True]), ([1], 1)))
    how = ctx.choice("how", ("int", "neg", "slice", "list", "1d"))
    if how in ("int", "neg") and ri == 1:
        v = S[1, a if how == "int" else a - 3]
        ctx.check(same_val(ctx, v, rows[1][a]), "one value")
        return
    if how == "int":
        cs, T = [a], S[ri, a]
    elif how == "neg":
        cs, T = [a], S[ri, a - 3]
    elif how == "slice":
        cs = list(range(3))[a:a + b]
        T = S[ri, a:a + b]
    elif how == "list":
        if isinstance(ri, list):
            return
        cs = [b, 0]
        T = S[ri, [b, 0]]
    else:
        rsel = [a]
        cs = [0, b] if b > 1 else [0, 1]
        T = S[a][cs]
    expect(ctx, T, [[rows[i][k] for k in cs] for i in rsel], [f[i] for i in rsel], [ne[i] for i in rsel], [idx[i] for i in rsel],
           [NAME[k] for k in cs], m, "columns")
    expect(ctx, S, rows, f, ne, idx, NAME, m, "original")


@SUITE.case()
def write_through(ctx):
    """setting fitness, n_eval or index of an integer or slice selection updates the original"""
    S, rows, f, ne, idx, m = build(ctx, m=1)
    a = ctx.choice("a", (0, 1, 2))
    y = ctx.real("y", -50, 50)
    how = ctx.choice("how", ("int", "neg", "slice"))
    T = S[a] if how == "int" else S[a - 3] if how == "neg" else S[a:a + 1]
    what = ctx.choice("what", ("fitness", "n_eval", "index", "whole"))
    f2, n2, i2 = list(f), list(ne), list(idx)
    if what == "fitness":
        T.fitness = y
        f2[a] = y
    elif what == "n_eval":
        T.n_eval += 1
        n2[a] = n2[a] + 1
    elif what == "index":
        T.index = "zz"
        i2[a] = "zz"
    else:
        S.fitness = [y, y, y]
        f2 = [y, y, y]
    expect(ctx, S, rows, f2, n2, i2, NAME, m, "write through")


@SUITE.case(time_s=50)
def add_mul(ctx):
    """concatenation aligns variables by name; repetition repeats everything"""
    how = ctx.choice("how", ("add", "add-1d", "1d-add", "1d-1d", "iadd", "mul", "permuted"))
    S, rows, f, ne, idx, m = build(ctx, 2)
    if how == "mul":
        N = ctx.choice("N", (1, 2, 3))
        T = S[1] * N if ctx.choice("side", (0, 1)) else N * S[1]
        expect(ctx, T, [rows[1]] * N, [f[1]] * N, [ne[1]] * N, [str(i) for i in range(N)], NAME, m, "mul")
        return
    O, r2, f2, ne2, idx2, _ = build(ctx, 2, t="o", m=m)
    nm = NAME
    if how == "permuted":
        perm = ctx.choice("perm", ((2, 0, 1), (1, 0, 2), (0, 2, 1)))
        T = S + O[:, list(perm)]
    elif how == "add":
        T = S + O
    elif how == "iadd":
        T = S
        T += O
    elif how == "add-1d":
        T = S + O[1]
        r2, f2, ne2, idx2 = r2[1:], f2[1:], ne2[1:], idx2[1:]
    elif how == "1d-add":
        T = S[0] + O
        rows, f, ne, idx = rows[:1], f[:1], ne[:1], idx[:1]
    else:
        T = S[0] + O[1]
        rows, f, ne, idx = rows[:1], f[:1], ne[:1], idx[:1]
        r2, f2, ne2, idx2 = r2[1:], f2[1:], ne2[1:], idx2[1:]
    expect(ctx, T, rows + r2, f + f2, ne + ne2, idx + idx2, nm, m, how)


@SUITE.case()
def dicts(ctx):
    """to_dict / from_dict round trip, in every orientation and for any order of keys"""
    n = ctx.choice("rows", (2, 3))
    S, rows, f, ne, idx, m = build(ctx, n, m=1)
    how = ctx.choice("how", ("index", "one", "with_index", "var", "var_index", "order", "order-names", "one-names"))
    row = lambda i: {k: rows[i][j] for j, k in enumerate(NAME)}
    same = lambda a, b: set(a) == set(b) and ctx.all([same_val(ctx, a[k], b[k]) for k in b])
    if how == "index":
        d = S.to_dict()
        ctx.check(len(d) == n and ctx.all([same(d[i], row(i)) for i in range(n)]), "to_dict")
        T = Solution.from_dict(d)
        ctx.check(ctx.all([same_val(ctx, T[i].tolist()[k], rows[i][k]) for i in (0, 1) for k in range(3)]) and list(T.var_name) == list(NAME), "round trip")
    elif how == "one":
        d = S[1].to_dict()
        ctx.check(same(d, row(1)), "to_dict of one point")
        T = Solution.from_dict(d)
        ctx.check(T.ndim == 1 and ctx.all([same_val(ctx, a, b) for a, b in zip(T.tolist(), rows[1])]), "round trip of one point")
    elif how == "with_index":
        d = S.to_dict(with_index=True)
        ctx.check(set(map(str, d)) == set(idx) and ctx.all([same(d[i], row(k)) for k, i in enumerate(idx)]), "to_dict with index")
    elif how == "var":
        d = S.to_dict(orient="var")
        ctx.check(set(d) == set(NAME) and ctx.all([same_val(ctx, d[nm][i], rows[i][k]) for k, nm in enumerate(NAME) for i in range(n)]), "to_dict by variable")
    elif how == "var_index":
        d = S.to_dict(orient="var", with_index=True)
        ctx.check(ctx.all([same_val(ctx, d[nm][ix], rows[i][k]) for k, nm in enumerate(NAME) for i, ix in enumerate(idx)]), "to_dict by variable with index")
    else:
        p = ctx.choice("p", (("c", "a", "b"), ("b", "c", "a")))
        l = [row(0), {k: row(1)[k] for k in p}]
        names = ("b", "a", "c") if how.endswith("names") else NAME
        if how == "one-names":
            T = Solution.from_dict(l[1], var_name=list(names))
            ctx.check(list(T.var_name) == list(names) and ctx.all([same_val(ctx, T[k], row(1)[nm]) for k, nm in enumerate(names)]), "from_dict: names given")
            return
        T = Solution.from_dict(l, var_name=list(names)) if how == "order-names" else Solution.from_dict(l)
        ctx.check(list(T.var_name) == list(names), "from_dict: names")
        ctx.check(ctx.all([same_val(ctx, T.tolist()[i][k], row(i)[nm]) for i in (0, 1) for k, nm in enumerate(names)]), "from_dict: values by name")


@SUITE.case()
def unique(ctx):
    """unique keeps the first of equal rows"""
    eq = ctx.choice("eq", ((0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0), (2, 1, 0), (1, 0, 1), (2, 0, 1), (1, 1, 0)))
    rows = [[float(e) + 0.5, "L%d" % e] for e in eq]
    f = fit(ctx, 3, 1)
    S = Solution(rows, fitness=f, n_eval=[1, 2, 3])
    T = S.unique()
    keep = [i for i in range(3) if eq.index(eq[i]) == i]
    expect(ctx, T, [rows[i] for i in keep], [f[i] for i in keep], [[1, 2, 3][i] for i in keep], [str(i) for i in keep], ("x0", "x1"), 1, "unique")
    one = S[1].unique()
    ctx.check(one.ndim == 1 and ctx.all([a == b for a, b in zip(one.tolist(), rows[1])]), "unique of one point")


@SUITE.case()
def csv(ctx):
    """to_csv writes one line per point with the columns asked for"""
    S = Solution([[1.5, "u"], [2.5, "v"]], fitness=[3.0, 4.0], n_eval=[1, 2], index=["p", "q"], var_name=["a", "b"])
    header, index, attr = (ctx.choice(k, (True, False)) for k in ("h", "i", "a"))
    one = ctx.choice("one", (True, False))
    append = ctx.choice("append", (True, False))
    with open("c08.csv", "w") as f:
        f.write("old\n")
    (S[1] if one else S).to_csv("c08.csv", header=header, index=index, attribute=attr, append=append)
    lines = open("c08.csv").read().splitlines()
    os.remove("c08.csv")
    want = ["old"] if append else []
    if header:
        want.append(",".join(([""] if index else []) + ["a", "b"] + (["n_eval", "f"] if attr else [])))
    for i in ([1] if one else [0, 1]):
        want.append(",".join(([["p", "q"][i]] if index else []) + [["1.5", "2.5"][i], ["u", "v"][i]] + ([["1", "2"][i], ["3.0", "4.0"][i]] if attr else [])))
    ctx.check(lines == want, "csv content")
