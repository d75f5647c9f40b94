"""C07  search spaces described by dictionaries"""
import json
import os

import numpy as np

from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, SearchSpace, Subset
from engine.case import Suite
from harness.c05 import consistent, desc, same_desc

SUITE = Suite("C07", bounds=["one or two entries, N in 1..3, every type name, arbitrary numeric ranges, with and without each optional key"],
              outside=["conditions in dictionaries"])
ALIAS = {"Real": ("r", "real"), "Integer": ("i", "int", "integer"), "Ordinal": ("o", "ordinal"), "Discrete": ("c", "cat"),
         "Subset": ("s", "subset"), "Bool": ("b", "bool")}


def entry(ctx, t, concrete=False):
    """(dict entry, expected description)"""
    k = ctx.choice(f"{t}.k", tuple(ALIAS))
    d = {"type": ctx.choice(f"{t}.alias", ALIAS[k])}
    opt = ctx.choice(f"{t}.opt", (0, 1))
    default = None
    pr = sc = st = None
    if k == "Real":
        lo = 1.5 if concrete else ctx.real(f"{t}.lo", 1, 20)
        d["range"] = [lo, lo + 5]
        sc = "linear"
        if opt:
            d["precision"], d["scale"] = pr, sc = 2, "log"
            default = lo + 1
        b = (lo, lo + 5)
    elif k == "Integer":
        lo = -3 if concrete else ctx.int(f"{t}.lo", -20, 20)
        d["range"] = [lo, lo + 6]
        st = 1
        if opt:
            d["step"] = st = 3
            default = lo + 3
        b = (lo, lo + 6)
    elif k == "Ordinal":
        d["range"] = [3, 5, 9]
        b = (3, 5, 9)
        default = 5 if opt else None
    elif k == "Discrete":
        d["range"] = ["A", "B", 7]
        b = ("A", "B", 7)
        default = "B" if opt else None
    elif k == "Subset":
        d["range"] = ["p", "q"]
        b = (("p",), ("q",), ("p", "q"))
        default = ("p", "q") if opt else None
    else:
        b = (False, True)
        default = False if opt else None
    if default is not None:
        d["default"] = default
    return d, (k, b, default, pr, sc, st)


def same_entry(ctx, a, b):
    if a[0] != b[0] or a[3:] != b[3:]:
        return False
    if (a[2] is None) != (b[2] is None):
        return False
    if a[2] is not None and not ctx.val_eq(a[2], b[2]):
        return False
    return same_desc(ctx, (a[0], a[1], None), (b[0], b[1], None))


@SUITE.case()
def single(ctx):
    """one entry replicated N times"""
    d, want = entry(ctx, "a")
    N = ctx.choice("N", (None, 1, 2, 3))
    if N is not None:
        d["N"] = N
    n = N or 1
    before = {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}
    S = SearchSpace.from_dict({"v": d})
    ctx.check(S.dim == n, "one variable per replication")
    ctx.check(ctx.all([same_entry(ctx, desc(v), want) for v in S.data]), "every variable has the described type, range and options")
    ctx.check(S.var_name == (["v"] if n == 1 else [f"v{i}" for i in range(n)]), "names")
    ctx.check(set(d) == set(before) and ctx.all([ctx.val_eq(d[k], before[k]) for k in before]), "input dictionary unchanged")
    consistent(ctx, S, "from_dict")


@SUITE.case(time_s=60)
def several(ctx):
    """two entries keep their order"""
    d, wd = entry(ctx, "a")
    e, we = entry(ctx, "b")
    if ctx.choice("N", (0, 1)):
        d["N"] = 2
    S = SearchSpace.from_dict({"p": d, "q": e})
    want = [wd] * d.get("N", 1) + [we]
    ctx.check(S.dim == len(want) and ctx.all([same_entry(ctx, desc(v), w) for v, w in zip(S.data, want)]), "entries in order")
    ctx.check(S.var_name == (["p", "q"] if "N" not in d else ["p0", "p1", "q"]), "names")


@SUITE.case()
def round_trip(ctx):
    """to_dict / to_json describe the space completely"""
    how = ctx.choice("how", ("dict", "json"))
    d, wd = entry(ctx, "a", how == "json")
    S = SearchSpace.from_dict({"p": d, "q": {"type": "i", "range": [0, 4]}})
    if how == "dict":
        T = SearchSpace.from_dict(S.to_dict())
    else:
        S.to_json("space.json")
        T = SearchSpace.from_json("space.json")
        os.remove("space.json")
    ctx.check(T.var_name == S.var_name, "names")
    ctx.check(T.dim == S.dim and ctx.all([same_entry(ctx, desc(v), desc(w)) for v, w in zip(T.data, S.data)]), "same variables")


@SUITE.case()
def invalid(ctx):
    """an invalid entry is reported"""
    bad = ctx.choice("bad", ({"type": "zz", "range": [0, 1]}, {"type": "r", "range": [2, 1]}, {"type": "i", "range": [3, 3]},
                             {"type": "r", "range": [0, 1], "scale": "cube"}, {"type": "c", "range": ["A"], "default": "B"}))
    pos = ctx.choice("pos", (0, 1))
    good = {"type": "r", "range": [0, 1]}
    try:
        S = SearchSpace.from_dict({"p": bad, "q": good} if pos == 0 else {"q": good, "p": bad})
    except Exception:
        ctx.check(True, "reported")
        return
    ctx.check(False, "an invalid entry is reported")
