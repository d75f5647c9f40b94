"""C31  conditional structures: trees of variables and the unconditional subspaces they stand for"""
import numpy as np

from bayes_optim.search_space import Bool, Discrete, Integer, Real, SearchSpace
from bayes_optim.search_space.node import Node
from engine.case import Suite

SUITE = Suite("C31", bounds=["every tree (and forest) of up to five nodes, two branch labels per node, every set of removed or kept names, arbitrary node data",
                             "conditional spaces of up to five variables, one or two selectors, any order of the variables and of the structure's entries, arbitrary bounds"],
              outside=["conditions on several variables", "values of a selector without conditional variables", "variables depending on two different selectors"],
              assumptions=[])
N = ["a", "b", "c", "d", "e"]


def tree(ctx, n, roots=1):
    """an arbitrary tree as parent and branch of each node"""
    par, br = [None] * n, [None] * n
    for i in range(roots, n):
        par[i] = ctx.choice(f"parent{i}", tuple(range(i))) if i > 1 else 0
        br[i] = f"{N[par[i]]} == {ctx.choice(f'branch{i}', (1, 2)) if n < 5 or i > 2 else 1}"
    return par, br


def build(n, par, br, data):
    nodes = [Node(N[i], data[i]) for i in range(n)]
    for i in range(n):
        if par[i] is not None:
            nodes[par[i]].add_child(nodes[i], br[i])
    return nodes


def kids(par, i):
    return [j for j in range(len(par)) if par[j] == i]


def pre(par, i, keep=None):
    if keep is not None and not keep[i]:
        return []
    return [i] + [k for j in kids(par, i) for k in pre(par, j, keep)]


def edges(node):
    out = []
    for c, b in zip(node.children, node.branches):
        out += [(node.name, c.name, b)] + edges(c)
    return out


def objs(node):
    return [node] + [o for c in node.children for o in objs(c)]


def check_tree(ctx, node, par, br, root, keep, data, label):
    ids = pre(par, root, keep)
    ctx.check(node.get_all_name() == [N[i] for i in ids], f"{label}: nodes in order")
    ctx.check(edges(node) == [e for e in [(N[par[i]], N[i], br[i]) for i in ids if i != root]] or sorted(edges(node)) == sorted((N[par[i]], N[i], br[i]) for i in ids if i != root),
              f"{label}: edges and conditions")
    ctx.check(all(len(o.children) == len(o.branches) for o in objs(node)), f"{label}: one condition per child")
    if data is not None:
        ctx.check(ctx.all([o.data == data[N.index(o.name)] for o in objs(node)]), f"{label}: data")
    ctx.check([o.is_root for o in objs(node)] == [True] + [False] * (len(ids) - 1), f"{label}: one root")


def remove(n, invert):
    def fn(ctx):
        par, br = tree(ctx, n)
        data = [ctx.real(f"v{i}", -9, 9) for i in range(n)]
        nodes = build(n, par, br, data)
        m = ctx.choice("names", tuple(range(2**n)))
        listed = [bool(m >> i & 1) for i in range(n)]
        keep = [x == invert for x in listed]
        names = [N[i] for i in range(n) if listed[i]]
        out = nodes[0].remove(names, invert)
        check_tree(ctx, nodes[0], par, br, 0, None, data, "the tree itself is kept")
        if not keep[0]:
            ctx.check(out is None, "without its root nothing is left")
        else:
            check_tree(ctx, out, par, br, 0, keep, data, "what is left")
            ctx.check(not {id(o) for o in objs(out)} & {id(o) for o in objs(nodes[0])}, "a copy")
        ctx.check(names == [N[i] for i in range(n) if listed[i]], "the names are kept")

    fn.__doc__ = f"remove, {n} nodes, invert={invert}"
    return fn


for v in (False, True):
    SUITE.add(f"remove-3-{v}", remove(3, v), time_s=60)
    SUITE.add(f"remove-4-{v}", remove(4, v), time_s=60)


@SUITE.case(time_s=60)
def copying(ctx):
    """deepcopy"""
    par, br = tree(ctx, 4)
    data = [ctx.real(f"v{i}", -9, 9) for i in range(4)]
    nodes = build(4, par, br, data)
    out = nodes[0].deepcopy()
    check_tree(ctx, out, par, br, 0, None, data, "copy")
    out.children[0].name = "zz"
    out.add_child(Node("q"), "x")
    check_tree(ctx, nodes[0], par, br, 0, None, data, "the original is kept")


def dicts(n, roots, quick=True):
    def fn(ctx):
        par, br = tree(ctx, n, roots)
        if roots == 2:  # node 1 is another root
            par[1] = br[1] = None
        nodes = build(n, par, br, [None] * n)
        rts = [i for i in range(n) if par[i] is None]
        d = {}
        for r in rts:
            t = nodes[r].to_dict()
            want = {}
            for i in pre(par, r):
                if kids(par, i):
                    want[N[i]] = [{"name": N[j], "condition": br[j]} for j in kids(par, i)]
            ctx.check(t == want, "dictionary of a tree")
            d.update(t)
        keys = list(d)
        if ctx.choice("reverse", (False, True)):
            keys = keys[::-1]
        if len(keys) > 2 and ctx.choice("rotate", (False, True)):
            keys = keys[1:] + keys[:1]
        src = {k: d[k] for k in keys}
        out = Node.from_dict(src)
        want = [r for r in rts if kids(par, r)]
        ctx.check(sorted(o.name for o in out) == [N[r] for r in want], "one tree per root")
        for o in out:
            check_tree(ctx, o, par, br, N.index(o.name), None, None, "tree of a dictionary")
        ctx.check(list(src) == keys and all(src[k] == d[k] for k in keys), "the dictionary is kept")

    fn.__doc__ = f"to_dict and from_dict, {n} nodes, {roots} roots"
    return fn


SUITE.add("dict-4-1", dicts(4, 1), time_s=60)
SUITE.add("dict-4-2", dicts(4, 2), time_s=60)
SUITE.add("dict-5-1", dicts(5, 1), tiers=("thorough",), time_s=240)
SUITE.add("dict-5-2", dicts(5, 2), tiers=("thorough",), time_s=240)


def worlds(par, br, i):
    """all combinations of decisions below node i: (conditions, leaves)"""
    ks = kids(par, i)
    if not ks:
        return [((), None)]
    out = []
    for b in dict.fromkeys(br[j] for j in ks):
        acc = [((b,), [])]
        for j in ks:
            if br[j] != b:
                continue
            if not kids(par, j):
                acc = [(c, l + [j]) for c, l in acc]
            else:
                acc = [(c + c2, l + l2) for c, l in acc for c2, l2 in worlds(par, br, j)]
        out += acc
    return out


def paths(n):
    def fn(ctx):
        par, br = tree(ctx, n)
        nodes = build(n, par, br, [None] * n)
        got = nodes[0].get_all_path()
        want = worlds(par, br, 0)
        g = sorted((sorted(k), sorted(v)) for k, v in got.items())
        w = sorted((sorted(k), sorted(N[i] for i in v)) for k, v in want)
        ctx.check(g == w, "every combination of decisions with all variables that are active then")

    fn.__doc__ = f"get_all_path, {n} nodes"
    return fn


SUITE.add("paths-4", paths(4), time_s=60)
SUITE.add("paths-5", paths(5), time_s=60)


def space_case(n, how):
    def fn(ctx):
        par, br = tree(ctx, n)
        lo = [ctx.int(f"lo{i}", -9, 0) for i in range(n)]
        hi = [ctx.int(f"hi{i}", 3, 9) for i in range(n)]
        free = Real([-5, 5], "free")
        order = list(range(n))
        if ctx.choice("reverse", (False, True)):
            order = order[::-1]
        structure = {}
        for i in range(n):
            if kids(par, i):
                structure[N[i]] = [{"name": N[j], "condition": br[j]} for j in kids(par, i)]
        if how == "conditions":
            V = [Integer([lo[i], hi[i]], N[i], conditions=br[i]) for i in order]
            cs = SearchSpace(V + [free])
        else:
            V = [Integer([lo[i], hi[i]], N[i]) for i in order]
            cs = SearchSpace(V + [free], structure=structure)
            ctx.check(structure == {N[i]: [{"name": N[j], "condition": br[j]} for j in kids(par, i)] for i in range(n) if kids(par, i)}, "the structure given is kept")
        sub = cs.get_unconditional_subspace()
        want = worlds(par, br, 0)
        ctx.check(len(sub) == len(want), "one subspace per combination of decisions")
        got = sorted((sorted(k.items()), sorted(s.var_name)) for k, s in sub)
        exp = sorted((sorted((b.split()[0], int(b.split()[2])) for b in c), sorted([N[i] for i in l] + ["free"])) for c, l in want)
        ctx.check(got == exp, "the decisions and the variables active then")
        for _, s in sub:
            for v in s.data:
                if v.name == "free":
                    ctx.check(type(v).__name__ == "Real" and tuple(v.bounds) == (-5, 5), "an unconditional variable")
                else:
                    i = N.index(v.name)
                    ctx.check(ctx.all([type(v).__name__ == "Integer", v.bounds[0] == lo[i], v.bounds[1] == hi[i]]), "a conditional variable as declared")
        ctx.check([v.name for v in cs.data] == [N[i] for i in order] + ["free"], "the space itself is kept")

    fn.__doc__ = f"unconditional subspaces, {n} variables, {how}"
    return fn


for h in ("conditions", "structure"):
    SUITE.add(f"subspaces-3-{h}", space_case(3, h), time_s=60)
    SUITE.add(f"subspaces-4-{h}", space_case(4, h), time_s=60)


@SUITE.case(time_s=45)
def two_selectors(ctx):
    """independent selectors are combined; the values of a condition are taken literally"""
    val = ctx.choice("value", ("3", "-1", "'A'", "2.5", "True"))
    x = {"3": Integer([0, 5], "x"), "-1": Integer([-2, 5], "x"), "'A'": Discrete(["A", "B"], "x"), "2.5": Real([0, 5], "x"), "True": Bool("x")}[val]
    cs = SearchSpace([x, Real([0, 1], "p", conditions=f"x == {val}"), Bool("y"), Real([0, 1], "q", conditions="y == 1"), Real([0, 1], "r", conditions="y == 0"), Real([0, 1], "f")])
    sub = cs.get_unconditional_subspace()
    want = {"3": 3, "-1": -1, "'A'": "A", "2.5": 2.5, "True": True}[val]
    got = sorted((k["y"], sorted(s.var_name)) for k, s in sub)
    ctx.check(got == [(0, ["f", "p", "r"]), (1, ["f", "p", "q"])], "combinations")
    ctx.check(all(k["x"] == want and type(k["x"]) is type(want) and set(k) == {"x", "y"} for k, _ in sub), "value of the selector")


def algebra(op):
    def fn(ctx):
        """the structure follows the variables"""
        par, br = tree(ctx, 4)
        given = ctx.choice("given", ("conditions", "structure"))
        if given == "conditions":
            V = [Integer([0, 9], N[i], conditions=br[i]) for i in range(4)]
            cs = SearchSpace(V + [Real([0, 1], "free")])
        else:
            V = [Integer([0, 9], N[i]) for i in range(4)]
            cs = SearchSpace(V + [Real([0, 1], "free")], structure={N[i]: [{"name": N[j], "condition": br[j]} for j in kids(par, i)] for i in range(4) if kids(par, i)})
        E = lambda s: sorted(e for t in s.structure for e in edges(t))
        full = sorted((N[par[i]], N[i], br[i]) for i in range(1, 4))
        ctx.check(E(cs) == full, "structure of the space")
        m = ctx.choice("which", tuple(range(1, 4)))
        if op == "remove":
            cs.remove(N[m])
            rest, s = [i for i in range(4) if i != m], cs
        elif op == "pop":
            cs.pop(m)
            rest, s = [i for i in range(4) if i != m], cs
        elif op == "slice":
            rest = [i for i in range(4) if i != m]
            s = cs[[i for i in rest] + [4]]
        elif op == "filter":
            rest = [i for i in range(4) if i != m]
            s = cs.filter([N[m]], invert=True)
        elif op == "sub":
            rest = [i for i in range(4) if i != m]
            s = cs - SearchSpace([Real([0, 1], N[m])])
        elif op == "isub":
            rest, s = [i for i in range(4) if i != m], cs
            cs -= SearchSpace([Real([0, 1], N[m])])
        elif op in ("add", "iadd", "concat"):
            ot = SearchSpace([Integer([0, 9], "u"), Real([0, 1], "w", conditions="u == 1")])
            if op == "iadd":
                s = cs
                s += ot
            else:
                s = cs + ot if op == "add" else SearchSpace.concat(cs, ot)
                ctx.check(E(cs) == full, "the operand is kept")
            ctx.check(E(s) == sorted(full + [("u", "w", "u == 1")]), "both structures")
            ctx.check(E(ot) == [("u", "w", "u == 1")], "the other operand is kept")
            return
        # the sub-tree of a removed variable cannot be reached any more
        keep = [i in rest for i in range(4)]
        ids = pre(par, 0, keep)
        below = [i for i in rest if i not in ids]
        got = E(s)
        ctx.check([e for e in got if e[0] in [N[i] for i in ids]] == sorted((N[par[i]], N[i], br[i]) for i in ids if i), "conditions between the remaining variables")
        ctx.check(all(e[0] != N[m] and e[1] != N[m] for e in got), "nothing refers to the removed variable")
        ctx.check(len(got) == len(set(got)), "no condition twice")
        s.get_unconditional_subspace()
        if op in ("slice", "filter", "sub"):
            ctx.check(E(cs) == full, "the space itself is kept")

    fn.__doc__ = f"structure after {op}"
    return fn


for o in ("remove", "pop", "slice", "filter", "sub", "isub", "add", "iadd", "concat"):
    SUITE.add(f"algebra-{o}", algebra(o), time_s=60)
