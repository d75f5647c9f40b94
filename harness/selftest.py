"""Conformance of the engine itself: every expression of selftest/bayes_optim/ops.py is executed symbolically and each path's result,
evaluated in a model of the path condition, is compared with what the interpreter and numpy return on that model's values.

VERIF_REPO=/verif/selftest ./check.sh SELFTEST quick"""
from types import SimpleNamespace

import numpy as np

from engine.case import Suite

SUITE = Suite("SELFTEST")


def _arr(ctx, xs):
    return np.array(xs, dtype=object if ctx.symbolic else float)


def mk(name, pin):
    def fn(ctx):
        from bayes_optim.ops import OPS

        k = [0]

        def real(n, lo, hi):
            if not pin:
                return ctx.real(n, lo, hi)
            k[0] += 1
            w = max(lo, min(hi, round(((k[0] * 37 + pin * 59) % 97) / 97 * (hi - lo) * 8) / 8 + lo))
            return ctx.real(n, w, w)

        r = lambda n: [real(f"{n}{i}", -3, 3) for i in range(3)]
        v = SimpleNamespace(a=_arr(ctx, r("a")), b=_arr(ctx, r("b")), A=_arr(ctx, [r("A"), r("B")]), S=_arr(ctx, [r("S")[:2], r("T")[:2]]),
                            s=real("s", -3, 3), t=real("t", -3, 3), n=ctx.int("n", 1, 3),
                            p=_arr(ctx, [real(f"p{i}", 0.125, 4) for i in range(3)]))
        v.q = _arr(ctx, [v.a[0], float("nan"), v.a[1]])
        v.w = _arr(ctx, [v.a[0], float("inf"), v.a[1]])
        ctx.observe("r", OPS[name](v))
        ctx.check(True, "ran")

    fn.__name__ = name
    return fn


def _names():
    from bayes_optim.ops import OPS

    return list(OPS)


for _n in _names():
    for _p in range(4):
        SUITE.add(f"{_n}.{_p}", mk(_n, _p), witnesses=12, time_s=20, max_paths=200)
