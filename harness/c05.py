"""C05  operations on search spaces keep the variables they should, and the derived information consistent"""
import numpy as np

from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, SearchSpace, Subset
from engine.case import Suite
from harness.lib import same_val

SUITE = Suite("C05", bounds=["operands of 1-3 variables of every type, numeric bounds symbolic in [-20, 20]",
                             "all collisions of names drawn from {x, x0, x1, y}", "replication factors 1..3"],
              outside=["conditional structures (see C31)", "spaces in which one variable object occurs twice"])
KINDS = ("Real", "Integer", "Ordinal", "Discrete", "Bool", "Subset")
MASKS = [(k, k.lower()) for k in KINDS]


def mk(ctx, kind, name, tag):
    if kind == "Real":
        a = ctx.real(f"{tag}.lb", -20, 20)
        return Real([a, a + 1], name=name, precision=2, scale="linear")
    if kind == "Integer":
        a = ctx.int(f"{tag}.lb", -20, 20)
        return Integer([a, a + 4], name=name, step=2)
    if kind == "Ordinal":
        return Ordinal([1, 3, 7], name=name)
    if kind == "Discrete":
        return Discrete(["A", "B", 2], name=name, default_value="B")
    if kind == "Bool":
        return Bool(name=name)
    return Subset(["u", "v"], name=name)


def desc(v):
    """everything a variable is, except its name"""
    return (type(v).__name__, tuple(v.bounds), v.default_value, getattr(v, "precision", None), getattr(v, "scale", None),
            getattr(v, "step", None))


def same_desc(ctx, a, b):
    if a[0] != b[0] or a[2:] != b[2:] or len(a[1]) != len(b[1]):
        return False
    return ctx.all([same_val(ctx, x, y) for x, y in zip(a[1], b[1])])


def consistent(ctx, s, label):
    """derived attributes agree with the list of variables"""
    d = s.data
    n = len(d)
    ctx.check(s.dim == n and len(s) == n, label + ": dim")
    ctx.check(list(s.var_name) == [v.name for v in d], label + ": var_name")
    ctx.check(len(set(s.var_name)) == n, label + ": names unique")
    ctx.check(list(s.var_type) == [type(v).__name__ for v in d], label + ": var_type")
    ctx.check(len(s.bounds) == n and ctx.all([ctx.seq_eq(a, v.bounds) for a, v in zip(s.bounds, d)]), label + ": bounds")
    if n == 0:
        return
    types = {type(v).__name__ for v in d}
    want = next(iter(types)) + "Space" if len(types) == 1 else "SearchSpace"
    ctx.check(type(s).__name__ == want, label + ": type of the space")
    for k, a in MASKS:
        m = [type(v).__name__ == k for v in d]
        ctx.check(list(map(bool, getattr(s, a + "_mask"))) == m, label + ": mask per type")
        ctx.check(sorted(map(int, getattr(s, a + "_id"))) == [i for i in range(n) if m[i]], label + ": ids per type")
    cat = [type(v).__name__ in ("Ordinal", "Discrete", "Bool", "Subset") for v in d]
    ctx.check(list(map(bool, s.categorical_mask)) == cat, label + ": categorical mask")
    ctx.check(sorted(map(int, s.categorical_id)) == [i for i in range(n) if cat[i]], label + ": categorical ids")
    ctx.check({int(k): tuple(v) for k, v in s.levels.items()} == {i: tuple(d[i].bounds) for i in range(n) if cat[i]}, label + ": levels")


def names_ok(got, want):
    """a name that is unique among the wanted ones is kept; all got names are distinct"""
    return len(set(got)) == len(got) and all(g == w for g, w in zip(got, want) if want.count(w) == 1)


def snapshot(s):
    return list(s.var_name), [v.name for v in s.data], [desc(v) for v in s.data]


def unchanged(ctx, s, snap, label):
    ctx.check(list(s.var_name) == snap[0] and [v.name for v in s.data] == snap[1], label + ": operand keeps its names")
    ctx.check(len(s.data) == len(snap[2]) and ctx.all([same_desc(ctx, desc(v), d) for v, d in zip(s.data, snap[2])]), label + ": operand unchanged")


def expect(ctx, s, want, names, label):
    ctx.check(len(s.data) == len(want), label + ": number of variables")
    ctx.check(ctx.all([same_desc(ctx, desc(v), d) for v, d in zip(s.data, want)]), label + ": variables in order")
    ctx.check(names_ok(s.var_name, names), label + ": names")
    consistent(ctx, s, label)


NM = ("x", "x0", "x1", "y")


def two(ctx, small=False):
    ka = [ctx.choice("ka0", ("Real", "Discrete", "Subset")), ctx.choice("ka1", ("Integer", "Real"))]
    kb = [ctx.choice("kb0", ("Real", "Bool", "Ordinal"))]
    na = ["x", ctx.choice("na", ("x0", "y"))]
    nb = [ctx.choice("nb", NM)]
    A = SearchSpace([mk(ctx, k, n, f"a{i}") for i, (k, n) in enumerate(zip(ka, na))])
    B = SearchSpace([mk(ctx, k, n, f"b{i}") for i, (k, n) in enumerate(zip(kb, nb))])
    return A, B


def binop(op):
    def fn(ctx):
        A, B = two(ctx)
        sa, sb = snapshot(A), snapshot(B)
        want, names = sa[2] + sb[2], sa[0] + sb[0]
        if op == "add":
            C = A + B
        elif op == "concat":
            C = SearchSpace.concat(A, B)
        elif op == "iadd":
            C = A
            A += B
            ctx.check(C is A, "iadd: in place")
        elif op == "sub":
            C = A - B
            keep = [i for i, n in enumerate(sa[0]) if n not in sb[0]]
            want, names = [sa[2][i] for i in keep], [sa[0][i] for i in keep]
        elif op == "isub":
            C = A
            A -= B
            keep = [i for i, n in enumerate(sa[0]) if n not in sb[0]]
            want, names = [sa[2][i] for i in keep], [sa[0][i] for i in keep]
        expect(ctx, C, want, names, op)
        if op in ("add", "concat", "sub"):
            unchanged(ctx, A, sa, op + " left")
        unchanged(ctx, B, sb, op + " right")
        if op in ("sub", "isub"):
            ctx.check(C.var_name == names, op + ": names kept")
        # later changes of the result do not reach the right operand
        if op in ("add", "concat", "iadd"):
            C.var_name = "q"
            unchanged(ctx, B, sb, op + " right after renaming the result")

    fn.__doc__ = f"{op} of a 2- and a 1-variable space with every collision of names"
    return fn


for _op in ("add", "concat", "iadd", "sub", "isub"):
    SUITE.add(_op, binop(_op), time_s=50)


def one(ctx, n=3):
    k = [ctx.choice("k0", ("Real", "Subset")), ctx.choice("k1", ("Integer", "Real", "Bool")), ctx.choice("k2", ("Discrete", "Ordinal", "Real"))][:n]
    return SearchSpace([mk(ctx, t, nm, f"v{i}") for i, (t, nm) in enumerate(zip(k, ("x", "y", "z")))])


@SUITE.case()
def build_names(ctx):
    """construction from three variables with arbitrary names"""
    nm = [ctx.choice(f"n{i}", NM) for i in range(3)]
    vs = [mk(ctx, k, n, f"v{i}") for i, (k, n) in enumerate(zip(("Real", "Integer", "Bool"), nm))]
    want = [desc(v) for v in vs]
    s = SearchSpace(vs)
    expect(ctx, s, want, nm, "construction")


@SUITE.case()
def multiply(ctx):
    """N * space and space *= N"""
    S = one(ctx, 2)
    sn = snapshot(S)
    N = ctx.choice("N", [1, 2, 3])
    how = ctx.choice("how", ["mul", "rmul", "imul"])
    if how == "imul":
        C = S
        S *= N
        ctx.check(S is C, "imul: in place")
    else:
        C = S * N if how == "mul" else N * S
        unchanged(ctx, S, sn, "mul")
    expect(ctx, C, sn[2] * N, sn[0] * N, "mul")
    if N > 1 and how != "imul":
        C.data[0].name = "other"
        ctx.check(S.data[0].name == "x" and C.data[2].name != "other", "mul: copies are independent")


@SUITE.case()
def index_(ctx):
    """slicing by integer, slice, list, mask, name(s)"""
    S = one(ctx)
    sn = snapshot(S)
    how = ctx.choice("how", ["int", "neg", "name", "slice", "list", "names", "mask", "filter", "filter-invert", "iter"])
    i, j = ctx.int("i", 0, 2), ctx.int("j", 0, 2)
    a, b = int(i), int(j)
    if how in ("int", "neg", "name"):
        v = S[a] if how == "int" else S[a - 3] if how == "neg" else S[["x", "y", "z"][a]]
        ctx.check(v is S.data[a], "one variable")
        return
    if how == "iter":
        ctx.check([v is w for v, w in zip(iter(S), S.data)] == [True] * 3 and len(list(S)) == 3, "iteration")
        return
    if how == "slice":
        idx = list(range(3))[a:b + 1]
        C = S[a:b + 1]
    elif how == "list":
        idx = [a, b] if a != b else [a]
        C = S[idx]
    elif how == "names":
        idx = [a, b] if a != b else [a]
        C = S[[S.var_name[k] for k in idx]]
    elif how == "mask":
        idx = sorted({a, b})
        C = S[[k in idx for k in range(3)]]
    elif how == "filter":
        idx = sorted({a, b})
        C = S.filter([S.var_name[k] for k in idx])
    else:
        idx = [k for k in range(3) if k not in (a, b)]
        C = S.filter([S.var_name[a], S.var_name[b]], invert=True)
    expect(ctx, C, [sn[2][k] for k in idx], [sn[0][k] for k in idx], "slice")
    ctx.check(C.var_name == [sn[0][k] for k in idx], "slice: names")
    unchanged(ctx, S, sn, "slice")


@SUITE.case()
def pop_remove(ctx):
    """pop and remove"""
    S = one(ctx)
    sn = snapshot(S)
    how = ctx.choice("how", ["pop", "pop-last", "remove", "remove-name"])
    a = int(ctx.int("i", 0, 2))
    if how == "pop":
        v = S.pop(a)
    elif how == "pop-last":
        a = 2
        v = S.pop()
    elif how == "remove":
        v = None
        S.remove(a)
    else:
        v = None
        S.remove(["x", "y", "z"][a])
    if v is not None:
        ctx.check(v.name == sn[0][a] and same_desc(ctx, desc(v), sn[2][a]), "pop: returns the variable")
    keep = [k for k in range(3) if k != a]
    expect(ctx, S, [sn[2][k] for k in keep], [sn[0][k] for k in keep], "pop/remove")


@SUITE.case(time_s=50)
def update(ctx):
    """update replaces variables of equal name in place and appends the others"""
    S = one(ctx)
    sn = snapshot(S)
    names = [ctx.choice("n0", ("x", "y", "p")), ctx.choice("n1", ("z", "q", "y"))]
    ctx.assume(names[0] != names[1])
    k = ctx.choice("k", (("Integer", "Real"), ("Bool", "Subset"), ("Real", "Real")))
    T = SearchSpace([mk(ctx, kk, n, f"t{i}") for i, (kk, n) in enumerate(zip(k, names))])
    st = snapshot(T)
    S.update(T)
    want, wn = list(sn[2]), list(sn[0])
    for n, d in zip(st[0], st[2]):
        if n in wn:
            want[wn.index(n)] = d
        else:
            want.append(d)
            wn.append(n)
    new = [n for n in names if n not in sn[0]]
    # the order in which new variables are appended is free
    ctx.check(list(S.var_name[:3]) == wn[:3] and sorted(S.var_name[3:]) == sorted(new), "update: names")
    byname = dict(zip(wn, want))
    ctx.check(ctx.all([same_desc(ctx, desc(v), byname[v.name]) for v in S.data]), "update: variables")
    consistent(ctx, S, "update")
    unchanged(ctx, T, st, "update")
    S.var_name = "q"
    unchanged(ctx, T, st, "update after renaming the result")


@SUITE.case()
def setitem(ctx):
    """replacing a variable"""
    S = one(ctx)
    sn = snapshot(S)
    a = int(ctx.int("i", 0, 2))
    k = ctx.choice("k", ("Real", "Integer", "Bool"))
    v = mk(ctx, k, ctx.choice("n", ("x", "w")), "new")
    d = desc(v)
    how = ctx.choice("how", ["int", "name"])
    S[a if how == "int" else sn[0][a]] = v
    want = list(sn[2])
    want[a] = d
    ctx.check(ctx.all([same_desc(ctx, desc(q), w) for q, w in zip(S.data, want)]) and len(S.data) == 3, "setitem: variables")
    consistent(ctx, S, "setitem")


def setitems(how):
    def fn(ctx):
        """replacing several variables by positions, names, a slice or a mask"""
        S = one(ctx)
        sn = snapshot(S)
        a, b = int(ctx.int("i", 0, 2)), int(ctx.int("j", 0, 2))
        ctx.assume(a != b)
        k = ctx.choice("k", (("Real", "Bool"), ("Real", "Real")))
        nm = [ctx.choice("n", ("x", "w")), "w"]
        v = [mk(ctx, kk, n, f"new{i}") for i, (kk, n) in enumerate(zip(k, nm))]
        one_ = ctx.choice("one", (False, True)) if how in ("list", "names", "mask") else how == "np"
        idx = [a, b]
        if how in ("slice", "mask"):
            idx = sorted(idx)
            if how == "slice" and idx == [0, 2]:
                return
        if how == "np":
            idx = [a]
        d = [desc(v[0])] * len(idx) if one_ else [desc(q) for q in v]
        nms = [v[0].name] * len(idx) if one_ else [q.name for q in v]
        key = {"list": idx, "names": [sn[0][i] for i in idx], "slice": slice(idx[0], idx[-1] + 1), "mask": [i in idx for i in range(3)],
               "array": np.array(idx), "np": np.int64(a)}[how]
        S[key] = v[0] if one_ else v
        want, names = list(sn[2]), list(sn[0])
        for i, q, n in zip(idx, d, nms):
            want[i], names[i] = q, n
        expect(ctx, S, want, names, "setitem")

    fn.__doc__ = f"replacing several variables ({how})"
    return fn


for _h in ("list", "names", "slice", "mask", "array", "np"):
    SUITE.add("setitems-" + _h, setitems(_h), time_s=50)


@SUITE.case()
def rename(ctx):
    """setting the names"""
    S = one(ctx)
    sn = snapshot(S)
    how = ctx.choice("how", ["prefix", "list"])
    if how == "prefix":
        S.var_name = "w"
        ctx.check(list(S.var_name) == ["w0", "w1", "w2"], "rename: prefix")
    else:
        S.var_name = ["z", "a", "x"]
        ctx.check(list(S.var_name) == ["z", "a", "x"], "rename: list")
    ctx.check(ctx.all([same_desc(ctx, desc(q), w) for q, w in zip(S.data, sn[2])]), "rename: variables")
    consistent(ctx, S, "rename")
