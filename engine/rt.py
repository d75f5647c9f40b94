"""Run-time that the instrumented code calls instead of plain Python calls/operators.

Everything is executed natively unless a symbolic value is involved; then the handlers below give
the same result over object arrays of symbolic scalars.
"""
from __future__ import annotations

import builtins
import functools
import itertools
import math
import operator
import types

import numpy as np

from . import sym
from .sym import (CONCRETE, DomainWarn, Dual, PathAbort, SBool, SInt, SReal, SStr, SVal, Unsupported, ceil, compare,
                  conj, cur, disj, floor, fn1, is_num, is_sym, ite, mkbool, neg, round_half_even, smax, smin, to_bool,
                  to_int, to_real, trunc)

nd = np.ndarray


def active():
    c = sym._cur
    return c is not None and c.symbolic


def arr_has_sym(a):
    if a.dtype != object:
        return False
    for v in a.flat if type(a) is nd else a.view(nd).flat:
        t = type(v)
        if t in sym._SYMTYPES:
            return True
        if t in (tuple, list) and has_sym(v, 2):
            return True
    return False


def has_sym(x, depth=4):
    t = type(x)
    if t in sym._SYMTYPES:
        return True
    if isinstance(x, nd):
        return arr_has_sym(x)
    if depth > 0:
        if t in (list, tuple, set, frozenset):
            for v in x:
                if has_sym(v, depth - 1):
                    return True
        elif t is dict:
            for v in x.values():
                if has_sym(v, depth - 1):
                    return True
        elif getattr(x, "_is_symtensor", False):
            return True
    return False


def objarr(x):
    """object ndarray from nested sequences / arrays / scalars"""
    if isinstance(x, nd):
        return x.view(nd).astype(object) if x.dtype != object else x.view(nd)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (types.GeneratorType, map, filter, zip)):
        x = list(x)
    if getattr(x, "_is_symtensor", False):
        return x.a
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (nd, list, tuple)) or getattr(v, "_is_symtensor", False) for v in x):
            parts = [objarr(v) if not (isinstance(v, tuple) and False) else v for v in x]
            shapes = {p.shape for p in parts}
            if len(shapes) == 1:
                out = np.empty((len(parts),) + parts[0].shape, dtype=object)
                for i, p in enumerate(parts):
                    out[i] = p if p.shape else p[()]
                return out
            out = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                out[i] = v
            return out
        out = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            out[i] = v
        return out
    return np.array(x, dtype=object)


def concrete_arr(a):
    """object array without symbolic entries -> natural dtype"""
    if not isinstance(a, nd) or a.dtype != object or type(a) is not nd:
        return a
    kinds = set()
    for v in a.flat:
        if isinstance(v, (bool, np.bool_)):
            kinds.add("b")
        elif isinstance(v, (int, np.integer)):
            kinds.add("i")
        elif isinstance(v, (float, np.floating)):
            kinds.add("f")
        else:
            return a
    if not kinds:
        return a.astype(float)
    if kinds == {"b"}:
        return a.astype(bool)
    if kinds == {"i"}:
        return a.astype(int)
    if "b" in kinds and len(kinds) > 1:
        return a.astype(float)
    return a.astype(float)


def denorm(x, depth=3):
    """replace purely concrete object arrays by native ones (deep)"""
    if isinstance(x, nd):
        return concrete_arr(x)
    if depth > 0:
        if type(x) is list:
            return [denorm(v, depth - 1) for v in x]
        if type(x) is tuple:
            return tuple(denorm(v, depth - 1) for v in x)
    return x


def unwrap(a):
    """0-d object array -> scalar"""
    if isinstance(a, nd) and a.shape == () and a.dtype == object:
        return a[()]
    return a


def fold(a):
    """array of booleans: native bool dtype if all concrete"""
    if isinstance(a, nd) and a.dtype == object and all(isinstance(v, (bool, np.bool_)) for v in a.flat):
        return a.astype(bool)
    return a


def emap(f, *xs):
    """broadcast elementwise map over object arrays"""
    arrs = [objarr(x) for x in xs]
    if all(a.shape == () for a in arrs):
        return f(*[a[()] for a in arrs])
    if len(arrs) > 1:
        arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    it = [a.flat for a in arrs]
    for i, vs in enumerate(zip(*it)):
        out.flat[i] = f(*vs)
    return out


def force_bool(a):
    """object array with SBool entries -> concrete bool array (forks)"""
    if isinstance(a, nd) and a.dtype == object:
        out = np.empty(a.shape, dtype=bool)
        src = a.view(nd)
        for i, v in enumerate(src.flat):
            out.flat[i] = bool(v)
        return out
    return a


def is_maskarr(a):
    return isinstance(a, nd) and a.dtype == object and a.size > 0 and any(type(v) is SBool for v in a.view(nd).flat) and all(
        type(v) is SBool or isinstance(v, (bool, np.bool_)) for v in a.view(nd).flat)


def fix_index(i, container=None):
    """make an index usable natively (forks on symbolic masks / integers)"""
    t = type(i)
    if t is tuple:
        return tuple(fix_index(v) for v in i)
    if t is SBool:
        return bool(i)
    if t is SInt:
        return cur().fork_int(i)
    if t is SReal:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) are valid indices")
    if isinstance(i, nd) and i.dtype == object:
        v = i.view(nd)
        if v.size == 0:
            return v.astype(int)
        if all(type(e) is SBool or isinstance(e, (bool, np.bool_)) for e in v.flat):
            return force_bool(v)
        if all(type(e) is SInt or isinstance(e, (int, np.integer)) for e in v.flat):
            out = np.empty(v.shape, dtype=int)
            for k, e in enumerate(v.flat):
                out.flat[k] = int(e)
            return out
        if all(isinstance(e, (float, np.floating)) and float(e).is_integer() for e in v.flat) and not any(is_sym(e) for e in v.flat):
            return v.astype(int)
        return i
    if t is list and has_sym(i):
        return [fix_index(v) for v in i]
    if t is slice and (hasattr(i.start, "_is_symtensor") or hasattr(i.stop, "_is_symtensor")):
        f = lambda v: cur().fork_int(v.item()) if hasattr(v, "_is_symtensor") and is_sym(v.item()) else (int(v) if hasattr(v, "_is_symtensor") else v)
        i = slice(f(i.start), f(i.stop), f(i.step))
    if t is slice and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
        f = lambda v: cur().fork_int(v) if is_sym(v) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


# ------------------------------------------------------------------ operators used by the instrumenter
def getitem(o, i):
    if not active():
        return o[i]
    if isinstance(o, nd) or type(o) in (list, tuple):
        if type(o) is not nd and isinstance(o, nd):  # subclasses implement their own __getitem__
            return o[fix_index(i)]
        i = fix_index(i)
        r = o[i]
        return r
    if isinstance(o, dict) and (is_sym(i) or (type(i) is tuple and has_sym(i))):
        for k, v in o.items():
            if bool(deep_eq(k, i)):
                return v
        raise KeyError(i)
    if isinstance(o, dict) and i not in o and any(is_sym(k) for k in o):
        for k, v in o.items():
            if is_sym(k) and bool(compare("==", k, i)):
                return v
        raise KeyError(i)
    if isinstance(o, (np.lib.index_tricks.CClass, np.lib.index_tricks.RClass)) and has_sym(i):
        return o[i]
    return o[i]


def setitem(o, i, v):
    if not active():
        o[i] = v
        return
    if isinstance(o, nd):
        m = i
        if type(i) is tuple and len(i) == 1:
            m = i[0]
        # masked scalar store over object arrays: merge instead of forking
        if isinstance(m, nd) and is_maskarr(m) and type(o) is nd and o.dtype == object and m.shape == o.shape and (
            is_sym(v) or is_num(v)
        ):
            for k in range(o.size):
                c = m.flat[k]
                o.flat[k] = ite(c, v, o.flat[k]) if is_sym(c) else (v if c else o.flat[k])
            return
        i = fix_index(i)
        if o.dtype != object and has_sym(v):
            if o.dtype == bool:
                v = force_bool(objarr(v))
                if v.shape == ():
                    v = bool(v[()])
            else:
                cur().st.concretised.append("store into native array")
                cur().flags.add("concretised")
                vv = objarr(v)
                v = np.array([cur().concretize(e) if is_sym(e) else e for e in vv.flat]).reshape(vv.shape)
        elif getattr(v, "_is_symtensor", False):
            v = v.a
        if o.dtype == object and isinstance(v, list) and has_sym(v):
            v = objarr(v)
        o[i] = v
        return
    if type(o) is list:
        o[fix_index(i)] = v
        return
    if isinstance(o, dict) and is_sym(i):
        for k in list(o.keys()):
            if bool(deep_eq(k, i)):
                o[k] = v
                return
        o[i] = v
        return
    o[i] = v


_OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
        "%": operator.mod, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
        "@": operator.matmul, "<<": operator.lshift, ">>": operator.rshift}
_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
         "%": operator.imod, "**": operator.ipow, "&": operator.iand, "|": operator.ior, "^": operator.ixor,
         "@": operator.imatmul, "<<": operator.ilshift, ">>": operator.irshift}


def iop(op, a, b):
    if active() and isinstance(a, nd) and a.dtype != object and has_sym(b):
        return _OPS[op](a.astype(object), b)
    if active() and isinstance(a, nd) and type(a) is nd and a.dtype != object and isinstance(b, nd) and b.dtype == object:
        return _IOPS[op](a, denorm(b))
    return _IOPS[op](a, b)


def augitem(o, i, op, v):
    if not active():
        o[i] = _IOPS[op](o[i], v)
        return
    x = getitem(o, i)
    setitem(o, i, iop(op, x, v))


def binmod(a, b):
    if isinstance(a, str) and type(a) is not SStr:
        if active() and has_sym(b):
            return a
        return a % b
    return a % b


_CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def cmp(op, a, b):
    if not active():
        return _CMP[op](a, b)
    for x in (a, b):
        if isinstance(x, nd) and x.dtype == object:
            break
        if isinstance(x, nd) and (is_sym(a) or is_sym(b)):
            break
    else:
        if op in ("==", "!=") and type(a) in (list, tuple) and type(a) is type(b) and (has_sym(a) or has_sym(b)):
            r = deep_eq(a, b)
            return r if op == "==" else neg(r)
        return _CMP[op](a, b)
    if not (has_sym(a) or has_sym(b)):
        return _CMP[op](a, b)
    aa = a.view(nd) if isinstance(a, nd) else a
    bb = b.view(nd) if isinstance(b, nd) else b
    try:
        return fold(emap(lambda x, y: cmp1(op, x, y), aa, bb))
    except ValueError:
        return _CMP[op](a, b)


def cmp1(op, x, y):
    if is_sym(x) or is_sym(y):
        r = compare(op, x, y)
        if r is NotImplemented:
            if op == "==":
                return False
            if op == "!=":
                return True
            raise TypeError(f"'{op}' not supported between symbolic {type(x)} and {type(y)}")
        return r
    if type(x) in (tuple, list) and (has_sym(x) or has_sym(y)):
        r = deep_eq(x, y)
        return r if op == "==" else neg(r)
    r = _CMP[op](x, y)
    return bool(r) if isinstance(r, (bool, np.bool_)) else r


def deep_eq(a, b):
    if is_sym(a) or is_sym(b):
        r = compare("==", a, b)
        return False if r is NotImplemented else r
    if type(a) in (list, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return conj([deep_eq(x, y) for x, y in zip(a, b)])
    return a == b


def contains(x, c, negate=False):
    if active() and (is_sym(x) or (type(c) in (list, tuple, set, frozenset, dict) and any(is_sym(k) for k in c))
                     or type(x) is tuple and has_sym(x)
                     or isinstance(c, type({}.keys())) and any(is_sym(k) for k in c)):
        if type(c) in (list, tuple, set, frozenset, dict) or isinstance(c, (type({}.keys()), type({}.values()))):
            r = disj([deep_eq(k, x) for k in c])
            return neg(r) if negate else r
        if isinstance(c, nd) and c.dtype == object:
            r = disj([deep_eq(k, x) for k in c.view(nd).flat])
            return neg(r) if negate else r
    r = x in c
    return (not r) if negate else r


def fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)"""
    if active() and any(type(p) is tuple and type(p[0]) is SStr for p in parts):
        out = ""
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                s = v if type(v) is SStr else format(_conv(v, conv), spec)
            else:
                s = p
            out = s if type(out) is str and out == "" else out + s
        return out
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if active() and is_sym(v) and type(v) is not SStr:
                out.append(repr(v))
            else:
                out.append(format(_conv(v, conv), spec))
        else:
            out.append(p)
    return "".join(out)


def _conv(v, c):
    return {-1: lambda: v, 115: lambda: str(v), 114: lambda: repr(v), 97: lambda: ascii(v)}[c]()


def getattr_dtype(o):
    if active() and isinstance(o, nd) and o.dtype == object and o.size:
        f = o.view(nd).flat
        vs = list(f)
        if any(is_sym(v) for v in vs):
            if all(type(v) is SStr or isinstance(v, str) for v in vs):
                return np.dtype("<U8")
            if all(type(v) is SBool or isinstance(v, (bool, np.bool_)) for v in vs):
                return np.dtype(bool)
            if type(o) is nd and all(type(v) is SInt or (isinstance(v, (int, np.integer)) and not isinstance(v, bool)) for v in vs):
                return np.dtype(int)
    return o.dtype


# ------------------------------------------------------------------ call interception
H = {}  # callable -> handler(*args, **kwargs); only consulted when a path is being explored
METH = {}  # ndarray method name -> handler(self, *args, **kwargs)
STUB = {}  # callable -> handler used whenever a symbolic context is active, symbolic args or not


def handler(*fs):
    def deco(h):
        for f in fs:
            H[f] = h
        return h

    return deco


def meth(*names):
    def deco(h):
        for n in names:
            METH[n] = h
        return h

    return deco


_NPMODS = ("numpy", "scipy")
_TRACE = None


def call(f, *a, **k):
    if not active():
        return f(*a, **k)
    try:
        h = STUB.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    try:
        h = H.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if type(f) is types.BuiltinMethodType or type(f) is types.MethodType or type(f) is types.MethodWrapperType:
        s = getattr(f, "__self__", None)
        if isinstance(s, nd):
            m = METH.get(f.__name__)
            if m is not None and type(f) is types.BuiltinMethodType:
                r = m(s, *a, **k)
                if r is not NotImplemented:
                    return r
        elif type(s) in (list, dict, set) and f.__name__ in _CONT:
            r = _CONT[f.__name__](s, *a, **k)
            if r is not NotImplemented:
                return r
        elif type(s) is str and (has_sym(a)):
            if f.__name__ == "join":
                items = list(a[0])
                out = ""
                for n, it in enumerate(items):
                    out = out + (s if n else "") + it
                return out
            if f.__name__ == "format":
                return s
    if isinstance(f, np.ufunc):
        return ufunc(f, *a, **k)
    mod = getattr(f, "__module__", None) or ""
    if mod.split(".")[0] in _NPMODS and not isinstance(f, type):
        sy = has_sym(a) or has_sym(k)
        if not sy:
            return f(*[denorm(v) for v in a], **{n: denorm(v) for n, v in k.items()})
        return unknown_np(f, a, k)
    return f(*a, **k)


_STRUCTURAL = {"reshape", "ravel", "concatenate", "vstack", "hstack", "stack", "column_stack", "tile", "repeat", "transpose", "squeeze",
               "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d", "moveaxis", "swapaxes", "roll", "flip", "fliplr", "flipud", "take", "broadcast_to",
               "delete", "append", "insert", "split", "array_split", "diag", "diagonal", "triu", "tril", "outer", "dot", "matmul", "trace",
               "ndim", "shape", "size", "copy", "meshgrid", "iterable", "isscalar", "broadcast_arrays", "inner", "kron", "cross", "tensordot", "vdot",
               "resize", "rot90", "take_along_axis", "put_along_axis", "broadcast", "ix_", "row_stack", "copyto", "block", "apply_along_axis", "vectorize",
               "prod", "cumprod", "cumsum", "diff", "ediff1d", "compress", "extract", "place", "putmask", "fill_diagonal", "isreal", "iscomplexobj", "isrealobj",
               # checked against numpy by harness/selftest.py
               "median", "percentile", "quantile", "einsum", "multi_dot", "matrix_power", "choose", "select", "piecewise", "argpartition", "partition",
               "digitize", "union1d", "isin", "in1d", "polyval", "pad", "<lambda>", "setdiff1d", "intersect1d", "array_repr"}


def unknown_np(f, a, k):
    n = getattr(f, "__name__", "?")
    if n in _STRUCTURAL or n.endswith("(vectorized)"):
        return f(*a, **k)
    # run natively; if numpy cannot do it on objects, concretise
    c = cur()
    try:
        r = f(*a, **k)
        c.st.unsupported.append(f"native {n} on symbolic values")
        return r
    except (PathAbort, Unsupported):
        raise
    except Exception:
        c.st.concretised.append(f"call of {getattr(f, '__module__', '')}.{n}")
        c.flags.add("concretised")
        return f(*[concretise(v) for v in a], **{x: concretise(v) for x, v in k.items()})


def concretise(x):
    if is_sym(x):
        return cur().concretize(x)
    if isinstance(x, nd) and x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        for i, v in enumerate(x.view(nd).flat):
            out.flat[i] = cur().concretize(v) if is_sym(v) else v
        return concrete_arr(out)
    if type(x) in (list, tuple):
        return type(x)(concretise(v) for v in x)
    return x


# ------------------------------------------------------------------ containers
def _list_index(s, x, *a):
    if has_sym(s) or has_sym(x):
        for i, v in enumerate(s):
            if bool(deep_eq(v, x)):
                return i
        raise ValueError("not in list")
    return s.index(x, *a)


def _list_count(s, x):
    if has_sym(s) or has_sym(x):
        return sum(1 for v in s if bool(deep_eq(v, x)))
    return s.count(x)


def _dict_get(s, k, d=None):
    if is_sym(k) or any(is_sym(x) for x in s):
        for kk, v in s.items():
            if bool(deep_eq(kk, k)):
                return v
        return d
    return s.get(k, d)


def _cont(name, f):
    def g(s, *a, **k):
        t = {"index": list, "count": list, "get": dict}[name]
        if type(s) is not t:
            return NotImplemented
        return f(s, *a, **k)

    return g


_CONT = {"index": _cont("index", _list_index), "count": _cont("count", _list_count), "get": _cont("get", _dict_get)}


def mkset(items=()):
    """a set in which symbolic and concrete members are deduplicated by value"""
    xs = list(items)
    if not has_sym(xs):
        return set(xs)
    out = []
    for x in xs:
        if not any(bool(deep_eq(x, y)) for y in out):
            out.append(x)
    return set(out)


H[set] = lambda *a: mkset(*a) if a else set()
H[frozenset] = lambda *a: frozenset(mkset(*a)) if a else frozenset()


def _set_add(s, x):
    if not (has_sym(x) or has_sym(list(s))) or not any(bool(deep_eq(x, y)) for y in s):
        s.add(x)


_CONT["add"] = lambda s, *a: _set_add(s, *a) if type(s) is set else NotImplemented


# ------------------------------------------------------------------ builtins
@handler(float)
def _float(x=0.0):
    if type(x) is SReal or type(x) is Dual:
        return x
    if type(x) in (SInt, SBool):
        return SReal(to_real(x))
    if isinstance(x, nd) and x.dtype == object and x.size == 1:
        return _float(x.view(nd).flat[0])
    if getattr(x, "_is_symtensor", False):
        return _float(x.item())
    return float(x)


@handler(int)
def _int(x=0, *a):
    if is_sym(x) and type(x) is not SStr:
        return trunc(x)
    if isinstance(x, nd) and x.dtype == object and x.size == 1:
        return _int(x.view(nd).flat[0])
    if getattr(x, "_is_symtensor", False):
        return _int(x.item())
    if hasattr(x, "__symint__"):  # a stand-in for text whose number is a variable
        return x.__symint__()
    return int(x, *a)


@handler(bool)
def _bool(x=False):
    if type(x) is SBool:
        return x
    if is_sym(x) and type(x) is not SStr:
        return mkbool(to_bool(x))
    return bool(x)


@handler(str)
def _str(x="", *a):
    if type(x) is SStr:
        return x
    return str(x, *a)


@handler(abs)
def _abs(x):
    if is_sym(x):
        if type(x) is Dual:
            return abs(x)
        return ite(compare(">=", x, 0), x, -x)
    return abs(x) if not (isinstance(x, nd) and arr_has_sym(x)) else np_abs(x)


@handler(round)
def _round(x, n=None):
    if is_sym(x):
        r = round_half_even(x, n or 0)
        return r if n is not None else trunc(r)
    return round(x) if n is None else round(x, n)


def _minmax(pick, native):
    def h(*a, key=None, default=_NO):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and xs and any(is_sym(v) and type(v) is not SStr for v in xs) and all(
            (is_sym(v) and type(v) is not SStr) or is_num(v) for v in xs
        ):
            out = xs[0]
            for v in xs[1:]:
                out = pick(out, v)
            return out
        k = {}
        if key is not None:
            k["key"] = key
        if default is not _NO and len(a) == 1:
            k["default"] = default
        return native(xs, **k) if (xs or k.get("default", _NO) is not _NO) else native(*a, **k)

    return h


_NO = object()
# Python's min/max keep the first of equal values
H[min] = _minmax(lambda a, b: ite(compare("<", b, a), b, a) if is_sym(a) or is_sym(b) else (b if b < a else a), min)
H[max] = _minmax(lambda a, b: ite(compare(">", b, a), b, a) if is_sym(a) or is_sym(b) else (b if b > a else a), max)


@handler(all)
def _all(xs):
    if isinstance(xs, nd) and type(xs) is not nd:
        xs = xs.view(nd)
    vs = list(xs)
    if any(is_sym(v) for v in vs):
        if any(isinstance(v, nd) for v in vs):
            return all(vs)
        return conj(vs)
    return all(vs)


@handler(any)
def _any(xs):
    if isinstance(xs, nd) and type(xs) is not nd:
        xs = xs.view(nd)
    vs = list(xs)
    if any(is_sym(v) for v in vs):
        if any(isinstance(v, nd) for v in vs):
            return any(vs)
        return disj(vs)
    return any(vs)


@handler(sum)
def _sum(xs, start=0):
    out = start
    for v in xs:
        out = out + v
    return out


@handler(hash)
def _hash(x):
    if has_sym(x):
        return HashVal(x)
    return hash(x)


class HashVal:
    """structural hash of a value with symbolic parts: equal values have equal hashes, nothing else is known"""

    def __init__(self, x):
        self.x = x


@handler(isinstance)
def _isinstance(x, cls):
    if isinstance(x, cls):
        return True
    if getattr(x, "_is_symtensor", False):
        import torch

        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(c is torch.Tensor for c in cs)
    if type(x) in (SReal, SInt, SBool, Dual):
        import numbers

        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if c in (numbers.Number, numbers.Real):
                return True
            if type(x) in (SReal, Dual) and c in (np.floating, np.number, np.float64):
                return True
            if type(x) is SInt and c in (np.integer, np.number, np.int64, np.int_, numbers.Integral):
                return True
            if type(x) is SBool and c in (np.bool_,):
                return True
    return False


@handler(type)
def _type(*a):
    if len(a) == 1 and type(a[0]) in (SReal, SInt, SBool, SStr, Dual):
        return {SReal: float, Dual: float, SInt: int, SBool: bool, SStr: str}[type(a[0])]
    return type(*a)


@handler(divmod)
def _divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else divmod(a, b)


@handler(sorted)
def _sorted(xs, **k):
    return sorted(xs, **k)


@handler(math.floor)
def _mfloor(x):
    return SInt(sym.Z.ToInt(to_real(x))) if is_sym(x) else math.floor(x)


@handler(math.ceil)
def _mceil(x):
    return SInt(-sym.Z.ToInt(-to_real(x))) if is_sym(x) else math.ceil(x)


for _n, _f in (("sqrt", math.sqrt), ("exp", math.exp), ("log", math.log)):
    H[_f] = (lambda _n, _f: lambda x, *a: fn1(_n, x) if is_sym(x) else _f(x, *a))(_n, _f)
H[math.isnan] = lambda x: False if is_sym(x) else math.isnan(x)
H[math.isinf] = lambda x: False if is_sym(x) else math.isinf(x)
H[math.isfinite] = lambda x: True if is_sym(x) else math.isfinite(x)
H[math.trunc] = lambda x: trunc(x) if is_sym(x) else math.trunc(x)
H[math.copysign] = lambda x, y: ite(compare(">=", y, 0), _abs(x), -_abs(x)) if is_sym(x) or is_sym(y) else math.copysign(x, y)
H[math.pow] = lambda x, y: operator.pow(x, y) if is_sym(x) or is_sym(y) else math.pow(x, y)
H[math.fsum] = lambda xs: _fsum_py(list(xs))
H[math.hypot] = lambda *xs: fn1("sqrt", _sum([x * x for x in xs])) if any(is_sym(x) for x in xs) else math.hypot(*xs)
H[math.dist] = lambda p, q: _mdist(list(p), list(q))
H[math.isclose] = lambda a, b, rel_tol=1e-09, abs_tol=0.0: (
    compare("<=", _abs(a - b), smax(rel_tol * smax(_abs(a), _abs(b)), abs_tol)) if is_sym(a) or is_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))


def _fsum_py(xs):
    return _sum(xs, 0.0) if any(is_sym(x) for x in xs) else math.fsum(xs)


def _mdist(p, q):
    if not any(is_sym(x) for x in p + q):
        return math.dist(p, q)
    if len(p) != len(q):
        raise ValueError("both points must have the same number of dimensions")
    return fn1("sqrt", _sum([(x - y) * (x - y) for x, y in zip(p, q)]))


for _t in (np.float64, np.double):
    H[_t] = lambda x=0.0: _float(x) if is_sym(x) else (np.float64(x) if not has_sym(x) else _np_array_f(x))


def _np_array_f(x):
    return H[np.array](x, dtype=float)


H[math.fabs] = lambda x: _abs(x) if is_sym(x) else math.fabs(x)


# ------------------------------------------------------------------ numpy: creation
def _native_dtype(dt):
    """dtypes that keep a native array"""
    if dt is None:
        return False
    try:
        d = np.dtype(dt)
    except TypeError:
        return True
    return d.kind in "bUSO"


def _np_create(name, fill):
    f = getattr(np, name)

    def h(shape, dtype=None, **k):
        shape = fix_index(shape)
        if isinstance(shape, nd):
            shape = tuple(int(v) for v in shape)
        if dtype is not None and np.dtype(dtype).kind in "US":
            return f(shape, dtype=dtype, **k)
        if dtype is not None and np.dtype(dtype).kind == "b":
            return f(shape, dtype=dtype, **k)
        a = np.empty(shape, dtype=object)
        if dtype is not None and np.dtype(dtype).kind == "O":
            if fill is not None and name != "empty":
                a.fill(fill)
            return a
        a.fill(float(fill) if dtype is None or np.dtype(dtype).kind == "f" else int(fill))
        return a

    return h


H[np.zeros] = _np_create("zeros", 0)
H[np.ones] = _np_create("ones", 1)
H[np.empty] = _np_create("empty", 0)


@handler(np.full)
def _full(shape, fill_value, dtype=None, **k):
    a = np.empty(fix_index(shape), dtype=object)
    a.fill(fill_value)
    if isinstance(fill_value, (bool, np.bool_)):
        return a.astype(bool)
    return a


def _like(v):
    def h(a, dtype=None, **k):
        a_ = objarr(a)
        src = getattr(a, "dtype", None)
        if (dtype is not None and np.dtype(dtype).kind == "b") or (dtype is None and src is not None and src == bool):
            return np.full(a_.shape, bool(v))
        out = np.empty(a_.shape, dtype=object)
        out.fill(float(v))
        return out

    return h


H[np.zeros_like] = _like(0)
H[np.ones_like] = _like(1)
H[np.empty_like] = _like(0)


@handler(np.full_like)
def _full_like(a, v, **k):
    out = np.empty(objarr(a).shape, dtype=object)
    out.fill(v)
    return out


@handler(np.eye)
def _eye(n, *a, **k):
    return np.eye(n, *a, **k).astype(object)


@handler(np.identity)
def _ident(n, **k):
    return np.eye(n).astype(object)


def _cast(a, dt):
    """elementwise conversion of an object array with symbolic entries"""
    d = np.dtype(dt)
    if d.kind == "O":
        return a
    if d.kind == "f":
        return emap_keep(lambda v: _float(v) if not isinstance(v, (str,)) or type(v) is SStr else float(v), a)
    if d.kind in "iu":
        return emap_keep(_int, a)
    if d.kind == "b":
        return fold(emap_keep(_bool, a))
    if d.kind in "US":
        if all(type(v) is SStr or isinstance(v, str) for v in a.flat):
            return a
        return emap_keep(lambda v: v if type(v) is SStr else str(v), a)
    raise Unsupported(f"cast to {d}")


def emap_keep(f, a):
    out = np.empty(a.shape, dtype=object)
    for i, v in enumerate(a.flat):
        out.flat[i] = f(v)
    return out


def _np_array(f):
    def h(x=None, dtype=None, copy=True, **k):
        if "object" in k:
            x = k.pop("object")
        if isinstance(x, (types.GeneratorType, map)):
            pass
        if getattr(x, "_is_symtensor", False):
            x = x.a
        if not has_sym(x):
            if isinstance(x, nd) and x.dtype == object and type(x) is nd and dtype is not None and np.dtype(dtype).kind in "f":
                # concrete object arrays stay assignable from symbolic values later
                return f(x, dtype=dtype, **k).astype(object)
            if dtype is not None and isinstance(dtype, (str, type, np.dtype)) and np.dtype(dtype).kind in "f":
                r = f(x, dtype=dtype, **k)
                return r.astype(object) if f is np.array or not isinstance(x, nd) else r
            kw = dict(k)
            if f is np.array:
                kw["copy"] = copy
            return f(x, **kw) if dtype is None else f(x, dtype=dtype, **kw)
        if isinstance(x, nd):
            a = x if type(x) is nd else x.view(nd)
            if f is np.array and copy:
                a = a.copy()
        else:
            a = objarr(x)
            if dtype is not None and np.dtype(dtype).kind == "O":
                # numpy nests lists only as deep as the shapes agree; objarr does the same
                pass
        nm = k.get("ndmin", 0)
        if nm and a.ndim < nm:
            a = a.reshape((1,) * (nm - a.ndim) + a.shape)
        if dtype is not None:
            a2 = _cast(a, dtype)
            a = a2
        return a

    return h


H[np.array] = _np_array(np.array)
H[np.asarray] = _np_array(np.asarray)
H[np.asanyarray] = _np_array(np.asarray)
H[np.ascontiguousarray] = _np_array(np.asarray)
H[np.asfarray] = lambda x, dtype=float: H[np.asarray](x, dtype=float)


def _atleast(nmin, f):
    def h(*xs):
        if len(xs) != 1:
            return [h(x) for x in xs]
        x = xs[0]
        if not has_sym(x):
            return f(x)
        a = x if isinstance(x, nd) else objarr(x)
        while a.ndim < nmin:
            a = a.reshape((1,) + a.shape)
        return a

    return h


H[np.atleast_1d] = _atleast(1, np.atleast_1d)
H[np.atleast_2d] = _atleast(2, np.atleast_2d)


def _joins(name):
    f = getattr(np, name)

    def h(xs, *a, **k):
        if isinstance(xs, (types.GeneratorType, map)):
            xs = list(xs)
        if has_sym(xs):
            xs = [objarr(x) for x in xs] if not isinstance(xs, nd) else xs
        return f(xs, *a, **k)

    return h


for _n in ("concatenate", "vstack", "hstack", "stack", "column_stack"):
    H[getattr(np, _n)] = _joins(_n)


# ------------------------------------------------------------------ numpy: elementwise
def _isfinite1(v, r):
    if is_sym(v):
        return r
    return None


def _un(f_sym, f_np):
    def h(x, *a, out=None, where=True, dtype=None, **k):
        if out is not None:
            r = h(x)
            _store_out(out, r)
            return out if not isinstance(out, tuple) else out[0]
        if not has_sym(x):
            x = denorm(x)
            return f_np(x, *a, **k)
        if where is not True:
            raise Unsupported("where=")
        return fold(emap(f_sym, x))

    return h


def _store_out(out, r):
    o = out[0] if isinstance(out, tuple) else out
    if o.dtype != object and has_sym(r):
        raise Unsupported("out= of native dtype with symbolic values")
    o[...] = r


def _anch(name, f_np):
    """register concrete applications as anchor points"""

    def h(x, *a, **k):
        if has_sym(x):
            return emap(lambda v: fn1(name, v), x)
        r = f_np(denorm(x), *a, **k)
        c = cur()
        xs, ys = np.asarray(denorm(x), dtype=float).ravel(), np.asarray(r, dtype=float).ravel()
        if len(xs) <= 16 and name in ("exp", "log", "log10"):
            for u, v in zip(xs, ys):
                c.anchor(name, float(u), float(v))
        return r

    return h


H[np.exp] = _anch("exp", np.exp)
H[np.log] = _anch("log", np.log)
H[np.log10] = _anch("log10", np.log10)
H[np.log1p] = _un(lambda v: fn1("log1p", v), np.log1p)
H[np.expm1] = _un(lambda v: fn1("expm1", v), np.expm1)
H[np.sqrt] = _un(lambda v: fn1("sqrt", v), np.sqrt)
H[np.floor] = _un(floor, np.floor)
H[np.ceil] = _un(ceil, np.ceil)
H[np.trunc] = _un(lambda v: SReal(to_real(trunc(v))) if is_sym(v) else np.trunc(v), np.trunc)
H[np.rint] = _un(lambda v: round_half_even(v, 0), np.rint)
H[np.square] = _un(lambda v: v * v, np.square)
H[np.negative] = _un(lambda v: -v, np.negative)
H[np.positive] = _un(lambda v: v, np.positive)
H[np.reciprocal] = _un(lambda v: 1 / v, np.reciprocal)


def _sign1(v):
    if not is_sym(v):
        return float(np.sign(v))
    return ite(compare(">", v, 0), 1.0, ite(compare("<", v, 0), -1.0, 0.0))


H[np.sign] = _un(_sign1, np.sign)


def np_abs(x, *a, **k):
    if not has_sym(x):
        return np.abs(denorm(x))
    return emap(lambda v: _abs(v), x)


H[np.abs] = H[np.absolute] = H[np.fabs] = np_abs


def _c1(f):
    def g(v):
        if is_sym(v):
            return None
        return bool(f(float(v)))

    return g


def _class(f, symval):
    def h(x, **k):
        if not has_sym(x):
            return f(denorm(x))
        return fold(emap(lambda v: symval if is_sym(v) else bool(f(float(v))), x))

    return h


H[np.isnan] = _class(np.isnan, False)
H[np.isinf] = _class(np.isinf, False)
H[np.isfinite] = _class(np.isfinite, True)
H[np.isreal] = lambda x: np.isreal(denorm(x)) if not has_sym(x) else np.ones(objarr(x).shape, dtype=bool)


@handler(np.round, np.around)
def _npround(x, decimals=0, **k):
    if not has_sym(x):
        return np.round(denorm(x), decimals, **k)
    return emap(lambda v: round_half_even(v, decimals), x)


@handler(np.clip)
def _clip(x, lo=None, hi=None, *a, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    if not (has_sym(x) or has_sym(lo) or has_sym(hi)):
        return np.clip(denorm(x), denorm(lo), denorm(hi))
    r = x
    if lo is not None:
        r = emap(smax, r, lo)
    if hi is not None:
        r = emap(smin, r, hi)
    o = k.get("out")
    if o is not None:
        _store_out(o, r)
        return o
    return r


def _b2(f_sym, f_np):
    def h(x, y, *a, out=None, where=True, **k):
        if where is not True:
            base = out if out is not None else np.zeros(np.broadcast(objarr(x), objarr(y)).shape).astype(object)
            w = np.broadcast_to(objarr(where), base.shape)
            X, Y = np.broadcast_to(objarr(x), base.shape), np.broadcast_to(objarr(y), base.shape)
            if not (has_sym(x) or has_sym(y) or has_sym(where)):
                return f_np(denorm(x), denorm(y), out=None if out is None else np.array(denorm(out)), where=denorm(objarr(where)))
            res = base if base.dtype == object else base.astype(object)
            for i in range(res.size):
                if bool(w.flat[i]):
                    res.flat[i] = f_sym(X.flat[i], Y.flat[i])
            return res
        if not (has_sym(x) or has_sym(y)):
            r = f_np(denorm(x), denorm(y), *a, **k)
        else:
            r = fold(emap(f_sym, x, y))
        if out is not None:
            _store_out(out, r)
            return out[0] if isinstance(out, tuple) else out
        return r

    return h


H[np.maximum] = _b2(smax, np.maximum)
H[np.minimum] = _b2(smin, np.minimum)
H[np.fmax] = _b2(lambda a, b: b if sym.isnan(a) else a if sym.isnan(b) else smax(a, b), np.fmax)
H[np.fmin] = _b2(lambda a, b: b if sym.isnan(a) else a if sym.isnan(b) else smin(a, b), np.fmin)
H[np.add] = _b2(operator.add, np.add)
H[np.subtract] = _b2(operator.sub, np.subtract)
H[np.multiply] = _b2(operator.mul, np.multiply)
H[np.divide] = H[np.true_divide] = _b2(operator.truediv, np.divide)
H[np.hypot] = _b2(lambda x, y: fn1("sqrt", x * x + y * y), np.hypot)
H[np.copysign] = _b2(lambda x, y: ite(compare(">=", y, 0), _abs(x), -_abs(x)) if is_sym(y) else (_abs(x) if y >= 0 else -_abs(x)), np.copysign)
H[np.heaviside] = _b2(lambda x, y: ite(compare(">", x, 0), 1.0, ite(compare("<", x, 0), 0.0, y)) if is_sym(x) else (1.0 if x > 0 else 0.0 if x < 0 else y), np.heaviside)
H[np.floor_divide] = _b2(operator.floordiv, np.floor_divide)
H[np.mod] = H[np.remainder] = _b2(operator.mod, np.mod)


def _pow1(a, b):
    if not is_sym(a) and is_sym(b) and float(a) == 10.0:
        return cur().uf("pow10", b) if type(b) is not Dual else (_ for _ in ()).throw(Unsupported("pow10 dual"))
    return operator.pow(a, b)


H[np.power] = H[np.float_power] = _b2(_pow1, np.power)
for _o, _f in (("<", np.less), ("<=", np.less_equal), (">", np.greater), (">=", np.greater_equal), ("==", np.equal), ("!=", np.not_equal)):
    H[_f] = (lambda o, f: _b2(lambda x, y: cmp1(o, x, y), f))(_o, _f)


def _logic(op, f_np, g):
    def h(x, y, *a, out=None, **k):
        if out is not None or a:
            o = out if out is not None else a[0]
            r = h(x, y)
            o[...] = force_bool(objarr(r)) if o.dtype == bool else r
            return o
        if not (has_sym(x) or has_sym(y)):
            return f_np(denorm(x), denorm(y), *a, **k)
        return fold(emap(g, x, y))

    return h


H[np.logical_and] = _logic("&", np.logical_and, lambda x, y: conj([x, y]))
H[np.logical_or] = _logic("|", np.logical_or, lambda x, y: disj([x, y]))
H[np.bitwise_and] = _logic("&", np.bitwise_and, lambda x, y: conj([x, y]))
H[np.bitwise_or] = _logic("|", np.bitwise_or, lambda x, y: disj([x, y]))
H[np.logical_xor] = H[np.bitwise_xor] = _logic("^", np.bitwise_xor, lambda x, y: mkbool(sym.Z.Xor(to_bool(x), to_bool(y))))
H[np.logical_not] = H[np.bitwise_not] = H[np.invert] = _un(lambda v: neg(v), np.logical_not)
H[np.bitwise_not] = H[np.invert] = lambda x, **k: (np.invert(denorm(x)) if not has_sym(x) else fold(emap(neg, x)))


@handler(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(denorm(a), denorm(b), rtol=rtol, atol=atol, equal_nan=equal_nan)

    def f(x, y):
        if not (is_sym(x) or is_sym(y)):
            return bool(np.isclose(float(x), float(y), rtol=rtol, atol=atol))
        if sym._special(x) or sym._special(y):
            return False
        d = _abs(x - y)
        return compare("<=", d, atol + rtol * _abs(y))

    return fold(emap(f, a, b))


@handler(np.allclose)
def _allclose(a, b, **k):
    return _npall(_isclose(a, b, **k))


@handler(np.array_equal)
def _array_equal(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(denorm(a), denorm(b))
    x, y = objarr(a), objarr(b)
    if x.shape != y.shape:
        return False
    return conj([cmp1("==", u, v) for u, v in zip(x.flat, y.flat)])


@handler(np.where)
def _where(c, *a):
    if not (has_sym(c) or has_sym(a)):
        return np.where(denorm(c), *[denorm(v) for v in a])
    if not a:
        return np.nonzero(force_bool(objarr(c)))
    return emap(lambda m, x, y: ite(m, x, y) if is_sym(m) else (x if m else y), c, a[0], a[1])


@handler(np.nonzero)
def _nonzero(c):
    if not has_sym(c):
        return np.nonzero(denorm(c))
    return np.nonzero(force_bool(objarr(c)))


@handler(np.flatnonzero)
def _flatnonzero(c):
    return np.flatnonzero(force_bool(objarr(c)) if has_sym(c) else denorm(c))


@handler(np.argwhere)
def _argwhere(c):
    return np.argwhere(force_bool(objarr(c)) if has_sym(c) else denorm(c))


@handler(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, **k):
    if not (has_sym(start) or has_sym(stop)):
        return np.linspace(denorm(start), denorm(stop), int(num), endpoint=endpoint, **k)
    num = int(num)
    if k or np.ndim(start) or np.ndim(stop):
        raise Unsupported("linspace")
    d = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = start + (stop - start) * (i / d) if d else start
    if endpoint and num > 1:
        out[-1] = stop
    return out


@handler(np.arange)
def _arange(*a, **k):
    if any(type(v) is SInt for v in a):
        a = [int(v) if type(v) is SInt else v for v in a]
    if has_sym(a):
        raise Unsupported("arange with symbolic real bounds")
    return np.arange(*[denorm(v) for v in a], **k)


@handler(np.fromiter)
def _fromiter(it, dtype, count=-1, **k):
    xs = list(it)
    if not has_sym(xs):
        return np.fromiter(xs, dtype=dtype)
    return H[np.array](xs, dtype=dtype)


@handler(np.linalg.solve)
def _solve(A, b, **k):
    if not (has_sym(A) or has_sym(b)):
        return np.linalg.solve(np.asarray(denorm(A), dtype=float), np.asarray(denorm(b), dtype=float))
    return H[np.matmul](_inv(A), b)


@handler(np.cov)
def _cov(x, *a, **k):
    if not has_sym(x):
        return np.cov(denorm(x), *a, **k)
    X = objarr(x)
    if a or set(k) - {"rowvar", "bias", "ddof"} or X.ndim > 2:
        raise Unsupported("cov")
    if X.ndim == 1:
        X = X[None, :]
    elif not k.get("rowvar", True):
        X = X.T
    n = X.shape[1]
    dd = k.get("ddof")
    dd = (0 if k.get("bias") else 1) if dd is None else dd
    C = [_fmean(list(r)) for r in X]
    M = [[_fsum([(u - C[i]) * (v - C[j]) for u, v in zip(X[i], X[j])]) / (n - dd) for j in range(len(X))] for i in range(len(X))]
    r = np.array(M, dtype=object)
    return r[0, 0] if r.size == 1 else r


@handler(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not has_sym(x):
        return np.nan_to_num(denorm(x), copy=copy, nan=nan, posinf=posinf, neginf=neginf)
    big = float(np.finfo(float).max)
    f = lambda v: v if is_sym(v) else nan if v != v else (big if posinf is None else posinf) if v == np.inf else (-big if neginf is None else neginf) if v == -np.inf else v
    r = emap(f, x)
    if not copy and isinstance(x, nd):
        x[...] = r
        return x
    return r


@handler(np.count_nonzero)
def _cnz(c, axis=None, **k):
    if not has_sym(c):
        return np.count_nonzero(denorm(c), axis=axis)
    return _npsum(emap(lambda v: ite(to_sb(v), 1, 0), c), axis=axis)


def to_sb(v):
    return mkbool(to_bool(v)) if is_sym(v) else bool(v)


# ------------------------------------------------------------------ numpy: reductions
def _axis_reduce(x, axis, keepdims, f, empty=None):
    a = objarr(x)
    if axis is None:
        vs = list(a.flat)
        r = f(vs) if vs or empty is None else empty
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out.flat[0] = r
            return out
        return r
    if isinstance(axis, tuple):
        axes = sorted((ax % a.ndim for ax in axis), reverse=True)
        m = np.moveaxis(a, axes, list(range(-len(axes), 0)))
        m = m.reshape(m.shape[: a.ndim - len(axes)] + (-1,))
        r = _axis_reduce(m, -1, False, f, empty)
        return r if not keepdims else np.expand_dims(r, tuple(sorted(axes)))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        vs = list(m[idx])
        out[idx] = f(vs) if vs or empty is None else empty
    out = fold(out)
    if keepdims:
        return np.expand_dims(out, axis)
    return out if out.shape else (out[()] if out.dtype == object else bool(out[()]))


def _red(f_np, f_sym, empty=None):
    def h(x, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(x, (types.GeneratorType, map)):
            x = list(x)
        if not has_sym(x):
            kw = dict(k)
            if keepdims:
                kw["keepdims"] = True
            return f_np(denorm(x), axis=axis, **kw)
        w, ini = k.get("where", True), k.get("initial", _NO)
        if w is not True or ini is not _NO:
            a = objarr(x)
            if axis is not None or keepdims:
                raise Unsupported("initial= or where= with axis")
            if w is not True:
                a = a[np.broadcast_to(force_bool(objarr(w)), a.shape)]
            return f_sym(([] if ini is _NO else [ini]) + list(a.flat)) if a.size or ini is not _NO else empty
        return _axis_reduce(x, axis, keepdims, f_sym, empty)

    return h


def _fsum(vs):
    out = vs[0]
    for v in vs[1:]:
        out = out + v
    return out if not type(out) is SBool else SInt(to_int(out))


def _fprod(vs):
    out = vs[0]
    for v in vs[1:]:
        out = out * v
    return out


def _fmin(vs):
    return functools.reduce(smin, vs)


def _fmax(vs):
    return functools.reduce(smax, vs)


def _fmean(vs):
    return _fsum(vs) / len(vs)


def _fvar(vs, ddof=0):
    m = _fmean(vs)
    return _fsum([(v - m) * (v - m) for v in vs]) / (len(vs) - ddof)


_npsum = _red(np.sum, _fsum, 0.0)
_npall = _red(np.all, lambda vs: conj([to_sb(v) for v in vs]), True)
_npany = _red(np.any, lambda vs: disj([to_sb(v) for v in vs]), False)
H[np.sum] = _npsum
def _nonan(f, empty):
    def g(vs):
        vs = [v for v in vs if not sym.isnan(v)]
        return f(vs) if vs else empty

    return g


H[np.nansum] = _red(np.nansum, _nonan(_fsum, 0.0), 0.0)
H[np.prod] = _red(np.prod, _fprod, 1.0)
H[np.min] = H[np.amin] = _red(np.min, _fmin)
H[np.max] = H[np.amax] = _red(np.max, _fmax)
H[np.nanmin] = _red(np.nanmin, _nonan(_fmin, float("nan")))
H[np.nanmax] = _red(np.nanmax, _nonan(_fmax, float("nan")))
H[np.mean] = _red(np.mean, _fmean)
H[np.nanmean] = _red(np.nanmean, _nonan(_fmean, float("nan")))


@handler(np.average)
def _average(x, axis=None, weights=None, returned=False, **k):
    if not (has_sym(x) or has_sym(weights)):
        return np.average(denorm(x), axis=axis, weights=denorm(weights), returned=returned, **k)
    if returned or k:
        raise Unsupported("average")
    if weights is None:
        return _axis_reduce(x, axis, False, _fmean)
    a, w = objarr(x), objarr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported("average")
        sh = [1] * a.ndim
        sh[axis] = len(w)
        w = np.broadcast_to(w.reshape(sh), a.shape)
    return _axis_reduce(emap(operator.mul, a, w), axis, False, _fsum) / _axis_reduce(w, axis, False, _fsum)


H[np.all] = _npall
H[np.any] = _npany
H[np.ptp] = _red(np.ptp, lambda vs: _fmax(vs) - _fmin(vs))


@handler(np.std)
def _std(x, axis=None, ddof=0, **k):
    if not has_sym(x):
        return np.std(denorm(x), axis=axis, ddof=ddof, **k)
    return _axis_reduce(x, axis, k.get("keepdims", False), lambda vs: fn1("sqrt", _fvar(vs, ddof)))


@handler(np.var)
def _var(x, axis=None, ddof=0, **k):
    if not has_sym(x):
        return np.var(denorm(x), axis=axis, ddof=ddof, **k)
    return _axis_reduce(x, axis, k.get("keepdims", False), lambda vs: _fvar(vs, ddof))


def _cum(f_np, op):
    def h(x, axis=None, **k):
        if not has_sym(x):
            return f_np(denorm(x), axis=axis, **k)
        a = objarr(x)
        if axis is None:
            a = a.ravel()
            axis = 0
        m = np.moveaxis(a, axis, 0).copy()
        for i in range(1, m.shape[0]):
            m[i] = op(m[i - 1], m[i])
        return np.moveaxis(m, 0, axis)

    return h


H[np.cumsum] = _cum(np.cumsum, operator.add)
H[np.cumprod] = _cum(np.cumprod, operator.mul)


def _argbest(vs, better, skipnan=False):
    nans = [i for i, v in enumerate(vs) if sym.isnan(v)]
    if nans and not skipnan:
        return nans[0]
    idx = [i for i in range(len(vs)) if i not in nans]
    if not idx:
        raise ValueError("All-NaN slice encountered" if vs else "attempt to get argmin of an empty sequence")
    k = idx[0]
    for i in idx[1:]:
        if bool(better(vs[i], vs[k])):
            k = i
    return k


def _arg(f_np, op, skipnan=False):
    def h(x, axis=None, **k):
        if not has_sym(x):
            return f_np(denorm(x), axis=axis)
        a = objarr(x)
        if axis is None:
            return _argbest(list(a.flat), lambda u, v: compare(op, u, v), skipnan)
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=int)
        for idx in np.ndindex(*m.shape[:-1]):
            out[idx] = _argbest(list(m[idx]), lambda u, v: compare(op, u, v), skipnan)
        return out if out.shape else int(out[()])

    return h


H[np.argmin] = _arg(np.argmin, "<")
H[np.argmax] = _arg(np.argmax, ">")
H[np.nanargmin] = _arg(np.nanargmin, "<", True)
H[np.nanargmax] = _arg(np.nanargmax, ">", True)


def _stable_argsort(vs):
    def lt(i, j):
        a, b = vs[i], vs[j]
        if sym.isnan(a) or sym.isnan(b):
            return sym.isnan(b) and not sym.isnan(a)  # numpy sorts nan last
        r = compare("<", a, b) if (is_sym(a) or is_sym(b)) else a < b
        return bool(r)

    # insertion sort: stable, forks only as needed
    order = []
    for i in range(len(vs)):
        p = len(order)
        while p > 0 and lt(i, order[p - 1]):
            p -= 1
        order.insert(p, i)
    return order


@handler(np.argsort)
def _argsort(x, axis=-1, kind=None, **k):
    if not has_sym(x):
        return np.argsort(denorm(x), axis=axis, kind=kind)
    a = objarr(x)
    if axis is None:
        a, axis = a.ravel(), 0
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=int)
    for idx in np.ndindex(*m.shape[:-1]):
        vs = list(m[idx])
        o = _stable_argsort(vs)
        if kind not in ("stable", "mergesort") and not getattr(cur(), "stable_sort", True):
            o = _perturb_ties(vs, o)
        out[idx] = o
    return np.moveaxis(out, -1, axis)


@handler(np.sort)
def _npsort(x, axis=-1, **k):
    if not has_sym(x):
        return np.sort(denorm(x), axis=axis)
    a = objarr(x)
    if axis is None:
        a, axis = a.ravel(), 0
    m = np.moveaxis(a, axis, -1).copy()
    for idx in np.ndindex(*m.shape[:-1]):
        vs = list(m[idx])
        m[idx] = [vs[i] for i in _stable_argsort(vs)]
    return np.moveaxis(m, -1, axis)


@handler(np.lexsort)
def _lexsort(keys, axis=-1):
    if not has_sym(keys):
        return np.lexsort(denorm(keys), axis=axis)
    ks = [list(objarr(k)) for k in keys]
    n = len(ks[0])
    order = list(range(n))
    for k in ks:
        o = _stable_argsort([k[i] for i in order])
        order = [order[i] for i in o]
    return np.array(order, dtype=int)


@handler(np.unique)
def _unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(x):
        return np.unique(denorm(x) if not isinstance(x, list) else x, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis)
    a = objarr(x)
    rows = [tuple(r.flat) for r in a] if axis == 0 else [(v,) for v in a.flat]

    def lt(p, q):
        for u, v in zip(p, q):
            if bool(cmp1("<", u, v)):
                return True
            if bool(cmp1(">", u, v)):
                return False
        return False

    order = []
    for i in range(len(rows)):
        p = len(order)
        while p > 0 and lt(rows[i], rows[order[p - 1]]):
            p -= 1
        order.insert(p, i)
    groups = []
    for i in order:
        if groups and not lt(rows[groups[-1][0]], rows[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    idx = np.array([min(g) for g in groups], dtype=int)
    vals = a[idx] if axis == 0 else a.ravel()[idx]
    res = [vals]
    if return_index:
        res.append(idx)
    if return_inverse:
        inv = np.empty(len(rows), dtype=int)
        for n, g in enumerate(groups):
            inv[g] = n
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g) for g in groups]))
    return res[0] if len(res) == 1 else tuple(res)


@handler(np.searchsorted)
def _searchsorted(a, v, side="left", **k):
    if not (has_sym(a) or has_sym(v)):
        return np.searchsorted(denorm(a), denorm(v), side=side)
    xs = list(objarr(a))

    def one(u):
        n = 0
        for x in xs:
            if bool(cmp1("<" if side == "left" else "<=", x, u)):
                n += 1
            else:
                break
        return n

    vv = objarr(v)
    if vv.shape == ():
        return one(vv[()])
    return np.array([one(u) for u in vv.flat], dtype=int).reshape(vv.shape)


# ------------------------------------------------------------------ numpy: linear algebra
@handler(np.dot)
def _dot(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.dot(denorm(a), denorm(b))
    return np.dot(objarr(a), objarr(b))


@handler(np.matmul)
def _matmul(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.matmul(denorm(a), denorm(b))
    return np.matmul(objarr(a), objarr(b))


@handler(np.outer)
def _outer(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.outer(denorm(a), denorm(b))
    a, b = objarr(a).ravel(), objarr(b).ravel()
    return a[:, None] * b[None, :]


@handler(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(denorm(x), ord=ord, axis=axis, keepdims=keepdims)
    if ord in (None, 2, "fro"):
        return _axis_reduce(x, axis, keepdims, lambda vs: fn1("sqrt", _fsum([v * v for v in vs])))
    if ord == 1:
        return _axis_reduce(x, axis, keepdims, lambda vs: _fsum([_abs(v) for v in vs]))
    if ord == np.inf:
        return _axis_reduce(x, axis, keepdims, lambda vs: _fmax([_abs(v) for v in vs]))
    raise Unsupported("norm")


def solve_tri(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    import scipy.linalg as sl

    if not (has_sym(a) or has_sym(b)):
        return sl.solve_triangular(denorm(a), denorm(b), trans=trans, lower=lower, unit_diagonal=unit_diagonal)
    A, B = objarr(a), objarr(b)
    if trans in (1, "T"):
        A, lower = A.T, not lower
    vec = B.ndim == 1
    if vec:
        B = B.reshape(-1, 1)
    n, m = B.shape
    X = np.empty((n, m), dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(m):
        for i in order:
            s = B[i, c]
            for j in range(i) if lower else range(i + 1, n):
                if not is_sym(A[i, j]) and A[i, j] == 0:
                    continue
                s = s - A[i, j] * X[j, c]
            X[i, c] = s if unit_diagonal else s / A[i, i]
    return X.ravel() if vec else X


@handler(np.linalg.cholesky)
def _cholesky(a):
    if not has_sym(a):
        return np.linalg.cholesky(np.asarray(denorm(a), dtype=float)).astype(object)
    A = objarr(a)
    n = A.shape[0]
    if A.ndim != 2 or n > 3:
        raise Unsupported("cholesky")
    L = np.full((n, n), 0.0, dtype=object)
    for j in range(n):
        d = A[j, j]
        for k in range(j):
            d = d - L[j, k] * L[j, k]
        if not (d > 0):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = fn1("sqrt", d)
        for i in range(j + 1, n):
            v = A[i, j]
            for k in range(j):
                v = v - L[i, k] * L[j, k]
            L[i, j] = v / L[j, j]
    return L


def _scholesky(a, lower=False, **k):
    import scipy.linalg as sl

    if not has_sym(a):
        return sl.cholesky(np.asarray(denorm(a), dtype=float), lower=lower, **k)
    L = _cholesky(a)
    return L if lower else L.T


def _qr(a, mode="full", **k):
    import scipy.linalg as sl

    if not has_sym(a):
        return sl.qr(np.asarray(denorm(a), dtype=float), mode=mode, **k)
    A = objarr(a)
    if A.ndim != 2 or A.shape[1] != 1 or mode not in ("economic", "reduced"):
        raise Unsupported("qr")
    nrm = fn1("sqrt", _fsum([v * v for v in A[:, 0]]))
    return A / -nrm, np.array([[-nrm]], dtype=object)


def _inv(a, **k):
    if not has_sym(a):
        return np.linalg.inv(np.asarray(denorm(a), dtype=float))
    A = objarr(a)
    n = A.shape[-1]
    if A.ndim != 2 or n > 2:
        raise Unsupported("inv")
    det = A[0, 0] if n == 1 else A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    if det == 0:
        raise np.linalg.LinAlgError("singular matrix")
    if n == 1:
        return np.array([[1 / det]], dtype=object)
    return np.array([[A[1, 1] / det, -A[0, 1] / det], [-A[1, 0] / det, A[0, 0] / det]], dtype=object)


@handler(np.linalg.det)
def _det(a):
    if not has_sym(a):
        return np.linalg.det(np.asarray(denorm(a), dtype=float))
    A = objarr(a)
    n = A.shape[-1]
    if A.ndim != 2 or n > 3:
        raise Unsupported("det")
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    return _fsum([A[0, i] * (A[1, (i + 1) % 3] * A[2, (i + 2) % 3] - A[1, (i + 2) % 3] * A[2, (i + 1) % 3]) for i in range(3)])


@handler(np.linalg.matrix_rank)
def _rank(a, tol=None, hermitian=False):
    if not has_sym(a):
        return np.linalg.matrix_rank(np.asarray(denorm(a), dtype=float), tol, hermitian)
    A = objarr(a)
    if A.ndim != 2 or max(A.shape) > 2:
        raise Unsupported("matrix_rank")
    if all(bool(v == 0) for v in A.ravel()):
        return 0
    return 2 if A.shape == (2, 2) and not bool(near0(_det(A))) else 1


def near0(v):
    return -1e-12 <= v and v <= 1e-12


def _cho_solve(c, b, **k):
    import scipy.linalg as sl

    L, lower = c
    if not (has_sym(L) or has_sym(b)):
        return sl.cho_solve((denorm(L), lower), denorm(b), **k)
    L = objarr(L)
    if not lower:
        L = L.T
    return solve_tri(L.T, solve_tri(L, b, lower=True), lower=False)


def _cdist(XA, XB, metric="euclidean", **k):
    import scipy.spatial.distance as D

    if not (has_sym(XA) or has_sym(XB)):
        return D.cdist(denorm(XA), denorm(XB), metric, **k)
    if metric not in ("euclidean", "sqeuclidean", "cityblock") or k:
        raise Unsupported(f"cdist {metric}")
    A, B = objarr(XA), objarr(XB)
    out = np.empty((len(A), len(B)), dtype=object)
    for i in range(len(A)):
        for j in range(len(B)):
            if metric == "cityblock":
                out[i, j] = sum(abs(a - b) for a, b in zip(A[i], B[j]))
            else:
                v = sum((a - b) * (a - b) for a, b in zip(A[i], B[j]))
                out[i, j] = v if metric == "sqeuclidean" else (fn1("sqrt", v) if is_sym(v) else math.sqrt(v))
    return out


def _reg_scipy():
    import scipy.linalg
    H[scipy.linalg.cholesky] = _scholesky
    H[scipy.linalg.qr] = _qr
    H[scipy.linalg.inv] = _inv
    H[np.linalg.inv] = _inv
    H[scipy.linalg.cho_solve] = _cho_solve
    H[scipy.linalg.det] = _det
    H[scipy.linalg.solve] = lambda A, b, **k: _solve(A, b) if has_sym(A) or has_sym(b) else scipy.linalg.solve(denorm(A), denorm(b), **k)
    import scipy.special
    from scipy.stats import norm

    H[scipy.linalg.solve_triangular] = solve_tri
    import scipy.spatial.distance

    H[scipy.spatial.distance.cdist] = _cdist
    for nm, key in (("cdf", "cdf"), ("pdf", "pdf"), ("logcdf", "logcdf")):
        f = getattr(norm, nm)
        H[f] = (lambda f, key: lambda x, loc=0, scale=1, **k: (
            f(denorm(x), loc=denorm(loc), scale=denorm(scale)) if not (has_sym(x) or has_sym(loc) or has_sym(scale))
            else emap(lambda v: fn1(key, v), (x - loc) / scale if not (_is(loc, 0) and _is(scale, 1)) else x)))(f, key)
    H[scipy.special.ndtr] = lambda x: scipy.special.ndtr(denorm(x)) if not has_sym(x) else emap(lambda v: fn1("cdf", v), x)
    H[scipy.special.log_ndtr] = lambda x: scipy.special.log_ndtr(denorm(x)) if not has_sym(x) else emap(lambda v: fn1("logcdf", v), x)
    H[scipy.special.logit] = lambda x, **k: scipy.special.logit(denorm(x)) if not has_sym(x) else emap(lambda v: fn1("logit", v), x)
    H[scipy.special.expit] = lambda x, **k: scipy.special.expit(denorm(x)) if not has_sym(x) else emap(lambda v: 1 / (1 + fn1("exp", -v)), x)


def _is(x, v):
    return not is_sym(x) and isinstance(x, (int, float)) and x == v


_NP_NORM = []


def ufunc(f, *a, **k):
    """ufunc without a handler"""
    if not (has_sym(a) or has_sym(k)):
        if "out" in k:
            return f(*a, **k)
        return f(*[denorm(v) for v in a], **{x: denorm(v) for x, v in k.items()})
    n = f.__name__
    if hasattr(SReal, n) or n in ("add", "subtract", "multiply", "divide"):
        return f(*[objarr(v) if isinstance(v, (nd, list)) else v for v in a], **k)
    return unknown_np(f, a, k)


# ------------------------------------------------------------------ ndarray methods
@meth("astype")
def _astype(s, dt, *a, **k):
    if not arr_has_sym(s):
        if s.dtype == object and type(s) is nd and np.dtype(dt).kind == "f":
            return s.astype(float).astype(object)
        if type(s) is nd and np.dtype(dt).kind == "f" and s.dtype != object:
            return s.astype(dt, *a, **k).astype(object)
        return NotImplemented
    r = _cast(s.view(nd), dt)
    if r is s or (isinstance(r, nd) and r.base is s):
        r = r.copy()
    return r


def _via(fn, *names):
    def h(s, *a, **k):
        if s.dtype != object:
            return NotImplemented
        return H[fn](s if type(s) is nd else s.view(nd), *a, **k)

    for n in names:
        METH[n] = h


_via(np.sum, "sum")
_via(np.prod, "prod")
_via(np.mean, "mean")
_via(np.std, "std")
_via(np.var, "var")
_via(np.min, "min")
_via(np.max, "max")
_via(np.all, "all")
_via(np.any, "any")
_via(np.argmin, "argmin")
_via(np.argmax, "argmax")
_via(np.argsort, "argsort")
_via(np.round, "round")
_via(np.clip, "clip")
_via(np.cumsum, "cumsum")
_via(np.nonzero, "nonzero")
_via(np.dot, "dot")
_via(np.searchsorted, "searchsorted")
_via(np.ptp, "ptp")


@meth("sort")
def _msort(s, axis=-1, **k):
    if not arr_has_sym(s):
        return NotImplemented
    s[...] = _npsort(s, axis=axis)


@meth("item")
def _item(s, *a):
    if arr_has_sym(s) and not a and s.size == 1:
        return s.view(nd).flat[0]
    return NotImplemented


@meth("fill")
def _fill(s, v):
    return NotImplemented


_reg_scipy()
