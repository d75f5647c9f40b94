"""Stand-ins for sources of nondeterminism and for native libraries the encoding stops at.

Installed before bayes_optim is imported, in the symbolic and in the replay process.  With no active
context they delegate to the original.  With one they return fresh inputs constrained by the
documented contract of the function they replace, so that "for every random outcome" is a universally
quantified claim; on replay the same draws are fed with the counterexample's values.
"""
from __future__ import annotations

import numpy as np

from . import rt, sym
from .sym import SBool, SInt, SReal, Unsupported, compare, cur, is_sym

ORIG = {}
NORMAL_RANGE = 10.0


def _on():
    return sym._cur is not None


class Rng:
    """the global numpy generator: a stream is identified by its seed and the draws since seeding"""

    def __init__(self):
        self.stream = "0"
        self.n = 0
        self.unseeded = 0
        self.cache = {}
        self.seeds = []

    def seed(self, s):
        self.seeds.append(s)
        if s is None:
            self.unseeded += 1
            self.stream = f"u{self.unseeded}"
        else:
            self.stream = f"s{s}"
        self.n = 0

    def tag(self, kind):
        t = f"{kind}@{self.stream}.{self.n}"
        self.n += 1
        return t


def rng():
    c = cur()
    r = c.user.get("rng")
    if r is None:
        r = c.user["rng"] = Rng()
    return r


def _draw(tag, size, one):
    """one(name) -> scalar; size None -> scalar"""
    r = rng()

    def get(name):
        if name not in r.cache:
            r.cache[name] = one(name)
        return r.cache[name]

    if size is None:
        return get(tag)
    if is_sym(size):
        size = int(size)
    if isinstance(size, np.ndarray):
        size = tuple(int(v) for v in size)
    if not isinstance(size, tuple):
        size = tuple(size) if isinstance(size, list) else (int(size),)
    size = tuple(int(v) for v in size)
    out = np.empty(size, dtype=object)
    for i in range(out.size):
        out.flat[i] = get(f"{tag}.{i}")
    if not cur().symbolic:
        k = [type(v) for v in out.flat]
        if all(t is int for t in k) and k:
            return out.astype(int)
        return out.astype(float)
    return out


def _shape(a):
    return None if len(a) == 0 else tuple(a)


def s_rand(*shape):
    t = rng().tag("rand")
    return _draw(t, _shape(shape), lambda n: cur().real(n, 0, 1, hi_open=True))


def s_random(size=None):
    t = rng().tag("rand")
    return _draw(t, size, lambda n: cur().real(n, 0, 1, hi_open=True))


def _normal1(n):
    """a standard normal draw; exactly zero has probability zero and is excluded"""
    v = cur().real(n, -NORMAL_RANGE, NORMAL_RANGE)
    cur().assume(compare("!=", v, 0.0) if is_sym(v) else v != 0)
    return v


def s_randn(*shape):
    t = rng().tag("randn")
    return _draw(t, _shape(shape), _normal1)


def s_standard_normal(size=None):
    t = rng().tag("randn")
    return _draw(t, size, _normal1)


def s_normal(loc=0.0, scale=1.0, size=None):
    if size is None and (np.ndim(loc) or np.ndim(scale)):
        size = np.broadcast(rt.objarr(loc), rt.objarr(scale)).shape
    return loc + scale * s_standard_normal(size)


def s_uniform(low=0.0, high=1.0, size=None):
    if size is None:
        sh = np.broadcast(rt.objarr(low), rt.objarr(high)).shape
        size = sh if sh else None
    return low + (high - low) * s_random(size)


def s_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if isinstance(low, np.ndarray) and low.size == 1:
        low = low.flat[0]
    if isinstance(high, np.ndarray) and high.size == 1:
        high = high.flat[0]
    if np.ndim(low) or np.ndim(high):
        raise Unsupported("randint with array bounds")
    if not is_sym(low) and not is_sym(high) and low >= high:
        raise ValueError("low >= high")
    if is_sym(low) or is_sym(high):
        if bool(compare(">=", low, high)):
            raise ValueError("low >= high")
    t = rng().tag("randint")
    return _draw(t, size, lambda n: cur().int(n, low, high - 1))


def s_geometric(p, size=None):
    """contract: integers >= 1 (truncated at 64 here)"""
    if size is None and np.ndim(p):
        size = np.shape(p)
    t = rng().tag("geom")
    return _draw(t, size, lambda n: cur().int(n, 1, 64))


def s_choice(a, size=None, replace=True, p=None):
    n = len(a) if hasattr(a, "__len__") else int(a)
    if n == 0:
        raise ValueError("a must be non-empty")
    k = 1 if size is None else int(np.prod(size))
    if not replace and k > n:
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    t = rng().tag(f"choice{n}{'r' if replace else 'd'}")
    idx = _draw(t, k, lambda nm: cur().int(nm, 0, n - 1))
    idx = [int(v) for v in idx] if not replace else list(idx)
    if not replace:
        # distinct entries: resolve the selection one by one
        seen = []
        for v in idx:
            cur().assume(v not in seen)
            seen.append(v)
        idx = seen
    else:
        idx = [cur().fork_int(v) if is_sym(v) else int(v) for v in idx]
    out = np.array(idx, dtype=int)
    if hasattr(a, "__len__"):
        out = np.asarray(a)[out]
    if size is None:
        return out[0]
    return out.reshape(size)


def s_permutation(x):
    n = len(x) if hasattr(x, "__len__") else int(x)
    idx = s_choice(n, n, replace=False)
    return np.asarray(x)[idx] if hasattr(x, "__len__") else idx


def s_shuffle(x):
    idx = s_choice(len(x), len(x), replace=False) if len(x) else []
    x[:] = [x[i] for i in idx] if isinstance(x, list) else np.asarray(x)[idx]


def s_seed(seed=None):
    rng().seed(None if seed is None else (seed if is_sym(seed) else int(seed)))


def s_lhs(n, samples=None, criterion=None, iterations=None):
    samples = n if samples is None else samples
    t = rng().tag("lhs")
    return _draw(t, (int(samples), int(n)), lambda nm: cur().real(nm, 0, 1, hi_open=True))


def s_lbfgsb(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, m=10, factr=1e7, pgtol=1e-5,
             epsilon=1e-8, iprint=-1, maxfun=15000, maxiter=15000, disp=None, callback=None, maxls=20):
    """contract: some point of the box with its objective value; at least one evaluation"""
    c = cur()
    k = c.fresh("bfgs")
    n = len(rt.objarr(x0).ravel())
    B = [(None, None)] * n if bounds is None else [tuple(b) for b in bounds]
    x = np.empty(n, dtype=object)
    for i, (lo, hi) in enumerate(B):
        x[i] = c.real(f"{k}.x{i}", lo, hi)
    if not c.symbolic:
        x = x.astype(float)
    r = func(x, *args)
    f = r[0] if fprime is None and not approx_grad else r
    if isinstance(f, np.ndarray):
        f = f.ravel()[0]
    calls = c.int(f"{k}.calls", 1, 3)
    flag = c.int(f"{k}.flag", 0, 1)
    return x, f, {"warnflag": flag, "funcalls": calls, "grad": r[1] if fprime is None and not approx_grad else None, "task": "stub", "nit": 1}


def _wrap(orig, stub):
    def w(*a, **k):
        if not _on():
            return orig(*a, **k)
        return stub(*a, **k)

    w.__name__ = getattr(orig, "__name__", "stub")
    w.__module__ = "engine.stubs"
    return w


_RANDOM = {"rand": s_rand, "randn": s_randn, "random": s_random, "random_sample": s_random, "ranf": s_random, "sample": s_random,
           "standard_normal": s_standard_normal, "normal": s_normal, "uniform": s_uniform, "randint": s_randint,
           "geometric": s_geometric, "choice": s_choice, "permutation": s_permutation, "shuffle": s_shuffle, "seed": s_seed}


def install(symbolic):
    import pyDOE
    import scipy.optimize
    import tabulate as tb

    if "rand" in ORIG:
        return
    for n, f in _RANDOM.items():
        ORIG[n] = getattr(np.random, n)
        setattr(np.random, n, _wrap(ORIG[n], f))
    ORIG["lhs"] = pyDOE.lhs
    pyDOE.lhs = _wrap(pyDOE.lhs, s_lhs)
    ORIG["fmin_l_bfgs_b"] = scipy.optimize.fmin_l_bfgs_b
    scipy.optimize.fmin_l_bfgs_b = _wrap(scipy.optimize.fmin_l_bfgs_b, s_lbfgsb)
    if symbolic:
        import sklearn.metrics as sm

        import scipy.stats as st

        def rankdata(a, method="average", **k):
            v = list(rt.objarr(a).ravel())
            if not rt.has_sym(v) or k:
                return st.rankdata(rt.denorm(np.asarray(a)), method, **k)
            lt = [sum(bool(w < x) for w in v) for x in v]
            eq = [sum(bool(w == x) for w in v) for x in v]
            if method == "ordinal":
                return np.array([1 + l + sum(bool(v[j] == v[i]) for j in range(i)) for i, l in enumerate(lt)])
            if method == "dense":
                return np.array([1 + len({m for m in lt if m < l}) for l in lt])
            d = {"average": lambda l, e: l + (e + 1) / 2, "min": lambda l, e: l + 1, "max": lambda l, e: l + e}[method]
            return np.array([d(l, e) for l, e in zip(lt, eq)])

        rt.STUB[st.rankdata] = rankdata
        rt.STUB[tb.tabulate] = lambda *a, **k: ""
        for f in (sm.r2_score, sm.mean_absolute_percentage_error, sm.mean_squared_error):
            rt.STUB[f] = (lambda f: lambda y, z, **k: 0.0 if rt.has_sym(y) or rt.has_sym(z) else f(rt.denorm(y), rt.denorm(z), **k))(f)
