"""Symbolic tensors: the part of torch that bayes_optim's multi-objective code uses, over object arrays.

While a symbolic run is active, torch constructors/functions return SymTensor (through rt.STUB).  Values are exact
reals / integers / Booleans (no float32 or float64 rounding); `dtype` and `device` are carried for form only.  An
operation the facade does not know is run by torch itself when every entry is concrete, else it is reported as
unsupported.
"""
from __future__ import annotations

import itertools

import numpy as np

from . import rt, sym
from .sym import Unsupported, compare, conj, cur, disj, fn1, is_sym, ite, neg, smax, smin, to_int, to_real, SBool, SInt, SReal

nd = np.ndarray
torch = None
_BOOL = (bool, np.bool_)
_INT = (int, np.integer)


def kind_of(a):
    k = "b"
    for v in a.flat:
        t = type(v)
        if t is SBool or isinstance(v, _BOOL) and not is_sym(v):
            continue
        if t is SInt or (isinstance(v, _INT) and not is_sym(v)):
            if k == "b":
                k = "i"
            continue
        return "f"
    return k if a.size else "f"


def _kind_dtype(dt):
    if dt is None:
        return None
    if dt in (torch.bool, bool):
        return "b"
    if dt in (torch.float32, torch.float64, torch.float16, float):
        return "f"
    return "i"


def cast1(v, kind):
    if kind == "b":
        if is_sym(v):
            return v if type(v) is SBool else sym.mkbool(sym.to_bool(v))
        return bool(v)
    if kind == "i":
        if is_sym(v):
            if type(v) is SBool:
                return SInt(to_int(v))
            return v if type(v) is SInt else sym.trunc(v)
        return int(v)
    if is_sym(v):
        return SReal(to_real(v)) if type(v) in (SBool, SInt) else v
    return float(v)


def cast(a, kind):
    out = np.empty(a.shape, dtype=object)
    for i, v in enumerate(a.flat):
        out.flat[i] = cast1(v, kind)
    return out


def raw(x):
    """object array of anything tensor-like"""
    if type(x) is SymTensor:
        return x.a
    if torch is not None and isinstance(x, torch.Tensor) and type(x) is not SymTensor:
        return objof(x.detach().cpu().numpy())
    if isinstance(x, (list, tuple)):
        return rt.objarr([raw(v) if type(v) is SymTensor or isinstance(v, torch.Tensor) else v for v in x])
    return rt.objarr(x)


def objof(a):
    """native array -> object array of Python scalars"""
    out = np.empty(a.shape, dtype=object)
    for i, v in enumerate(a.flat):
        out.flat[i] = v.item() if isinstance(v, np.generic) else v
    return out


def knd(x):
    if type(x) is SymTensor:
        return x.kind
    return None


def mk(a, kind=None, dtype=None):
    if not isinstance(a, nd):
        b = np.empty((), dtype=object)
        b[()] = a
        a = b
    return SymTensor(a, kind, dtype)


def obj0(v):
    b = np.empty((), dtype=object)
    b[()] = v
    return b


def emap(f, *xs):
    r = rt.emap(f, *xs)
    return r if isinstance(r, nd) else obj0(r)


def promote(*xs):
    """result kind of arithmetic between tensors and Python scalars (tensors win within a category)"""
    order = "bif"
    ks = [x.kind for x in xs if type(x) is SymTensor]
    best = max((order.index(k) for k in ks), default=0)
    for x in xs:
        if type(x) is not SymTensor:
            best = max(best, order.index(kind_of(raw(x))))
    return order[best]


_A = sym._A


def add1(a, b):
    return _A("+", a, b)


def sub1(a, b):
    return _A("-", a, b)


def mul1(a, b):
    return _A("*", a, b)


def div1(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))
    if is_sym(b) and bool(compare("==", b, 0)) or not is_sym(b) and b == 0:
        if is_sym(a):
            a = 1.0 if bool(compare(">", a, 0)) else (-1.0 if bool(compare("<", a, 0)) else 0.0)
        return float("nan") if a == 0 or a != a else (float("inf") if a > 0 else float("-inf"))
    return _A("/", a, b)


def pow1(a, b):
    if is_sym(a) or is_sym(b):
        return sym.arith("**", a, b)
    return a**b


def neg1(a):
    return -a if not isinstance(a, _BOOL) else -int(a)


def inv1(a):
    return neg(a)


def and1(a, b):
    return conj([sym.mkbool(sym.to_bool(a)) if is_sym(a) else bool(a), sym.mkbool(sym.to_bool(b)) if is_sym(b) else bool(b)])


def or1(a, b):
    return disj([sym.mkbool(sym.to_bool(a)) if is_sym(a) else bool(a), sym.mkbool(sym.to_bool(b)) if is_sym(b) else bool(b)])


def xor1(a, b):
    return or1(and1(a, neg(b)), and1(neg(a), b))


def asb(v):
    return sym.mkbool(sym.to_bool(v)) if is_sym(v) else bool(v)


def fixi(i):
    """index -> something numpy accepts; tensors become concrete index arrays (forking)"""
    if type(i) is tuple:
        return tuple(fixi(v) for v in i)
    if type(i) is SymTensor:
        a = i.a
        if i.kind == "b":
            return rt.force_bool(a)
        if a.shape == ():
            return int(_ci(a[()]))
        out = np.empty(a.shape, dtype=int)
        for k, v in enumerate(a.flat):
            out.flat[k] = _ci(v)
        return out
    if isinstance(i, torch.Tensor):
        return i.cpu().numpy()
    if type(i) is slice:
        f = lambda v: int(_ci(v.item())) if type(v) is SymTensor else (int(_ci(v)) if is_sym(v) else v)
        return slice(f(i.start), f(i.stop), f(i.step))
    if type(i) is list:
        if any(type(v) is SymTensor for v in i):
            return fixi(SymTensor(rt.objarr([v.a for v in i])))
        return np.asarray(rt.fix_index(i))
    return rt.fix_index(i)


def _ci(v):
    return cur().fork_int(v) if is_sym(v) else int(v)


class Vals(tuple):
    """(values, indices)"""

    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def dims(d, nd_):
    if d is None:
        return None
    if isinstance(d, (tuple, list)):
        return tuple(x % nd_ for x in d)
    return d % nd_ if nd_ else 0


def reduce_(f, a, dim, keepdim=False):
    """f over lists along dim"""
    if dim is None:
        return obj0(f(list(a.flat)))
    if isinstance(dim, (tuple, list)):
        out = a
        ds = sorted({d % a.ndim for d in dim}, reverse=True)
        m = np.moveaxis(a, ds, range(-len(ds), 0)).reshape([a.shape[i] for i in range(a.ndim) if i not in ds] + [-1])
        r = reduce_(f, m, -1)
        if keepdim:
            r = r.reshape([1 if i in ds else a.shape[i] for i in range(a.ndim)])
        return r
    if a.ndim == 0:
        return obj0(f([a[()]]))
    m = np.moveaxis(a, dim, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = f(list(m[idx]))
    if keepdim:
        out = np.expand_dims(out, dim % a.ndim)
    return out


def _fsum(vs):
    r = 0
    for v in vs:
        v = cast1(v, "i") if (type(v) is SBool or isinstance(v, _BOOL)) else v
        r = add1(r, v)
    return r


def _fprod(vs):
    r = 1
    for v in vs:
        v = cast1(v, "i") if (type(v) is SBool or isinstance(v, _BOOL)) else v
        r = mul1(r, v)
    return r


def _fold(f):
    def g(vs):
        if not vs:
            raise RuntimeError("reduction over an empty dimension")
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return r

    return g


def _argbest(op):
    def g(vs):
        if not vs:
            raise IndexError("reduction over an empty dimension")
        return rt._argbest(vs, lambda u, v: compare(op, u, v) if (is_sym(u) or is_sym(v)) else {"<": u < v, ">": u > v}[op])

    return g


def sort_idx(a, dim, descending=False):
    m = np.moveaxis(a, dim, -1) if a.ndim else a
    if a.ndim == 0:
        return obj0(0)
    out = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        vs = list(m[idx])
        if descending:
            vs = [neg1(v) for v in vs]
        out[idx] = rt._stable_argsort(vs)
    return np.moveaxis(out, -1, dim)


def shape_args(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(int(v) if not type(v) is SymTensor else int(_ci(v.item())) for v in s)


class SymTensor:
    _is_symtensor = True
    __array_priority__ = 1e6
    __array_ufunc__ = None
    requires_grad = False
    grad = None
    is_cuda = False
    layout = None

    def __init__(self, a, kind=None, dtype=None):
        self.a = a
        self.kind = kind or kind_of(a)
        self._dt = dtype

    # ------------------------------------------------------------ form
    @property
    def dtype(self):
        if self._dt is not None:
            return self._dt
        return {"b": torch.bool, "i": torch.int64, "f": torch.float64}[self.kind]

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def shape(self):
        return torch.Size(self.a.shape)

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    @property
    def ndim(self):
        return self.a.ndim

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    nelement = numel

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self.a = v.a if type(v) is SymTensor else raw(v)

    @property
    def T(self):
        return SymTensor(self.a.T, self.kind)

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[i] for i in range(len(self.a))])

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<SymTensor>"

    def __format__(self, s):
        return "<SymTensor>"

    def __deepcopy__(self, memo):
        return self.clone()

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(self.a.flat[0])

    def __int__(self):
        return int(_ci(cast1(self.item(), "i")))

    __index__ = __int__

    def __float__(self):
        v = self.item()
        return cur().concretize(v) if is_sym(v) else float(v)

    def item(self):
        if self.a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self.a.flat[0]

    def tolist(self):
        return self.a.tolist() if self.a.ndim else self.a[()]

    def numpy(self):
        return self.a if rt.arr_has_sym(self.a) else rt.concrete_arr(self.a)

    def __array__(self, dtype=None):
        return self.a

    def _same(self, *a, **k):
        return self

    cpu = detach = contiguous = cuda = requires_grad_ = _same

    def to(self, *a, **k):
        dt = k.get("dtype")
        for v in a:
            if isinstance(v, torch.dtype):
                dt = v
            elif type(v) is SymTensor:
                return self.astype(v.kind, v._dt)
        return self.astype(_kind_dtype(dt), dt) if dt is not None else self

    type_as = to

    def type(self, dt=None):
        return self.to(dt) if dt is not None else str(self.dtype)

    def astype(self, kind, dt=None):
        return SymTensor(cast(self.a, kind), kind, dt)

    def long(self):
        return self.astype("i")

    int = long

    def float(self):
        return self.astype("f")

    double = float

    def bool(self):
        return self.astype("b")

    def clone(self, *a, **k):
        return SymTensor(self.a.copy(), self.kind, self._dt)

    def unsqueeze(self, dim):
        d = dim if dim >= 0 else dim + self.a.ndim + 1
        return SymTensor(np.expand_dims(self.a, d), self.kind)

    def squeeze(self, dim=None):
        if dim is None:
            return SymTensor(np.squeeze(self.a), self.kind)
        if self.a.ndim and self.a.shape[dim] == 1:
            return SymTensor(np.squeeze(self.a, dim), self.kind)
        return SymTensor(self.a, self.kind)

    def expand(self, *s):
        s = shape_args(s)
        k = len(s) - self.a.ndim
        s = tuple(self.a.shape[i - k] if v == -1 else v for i, v in enumerate(s))
        return SymTensor(np.broadcast_to(self.a, s), self.kind)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def view(self, *s):
        return SymTensor(self.a.reshape(shape_args(s)), self.kind)

    reshape = view

    def flatten(self, start_dim=0, end_dim=-1):
        s = self.a.shape
        n = len(s)
        if n == 0:
            return self.view(1)
        b, e = start_dim % n, end_dim % n
        return self.view(*s[:b], int(np.prod(s[b : e + 1])), *s[e + 1 :])

    ravel = flatten

    def permute(self, *s):
        return SymTensor(self.a.transpose(shape_args(s)), self.kind)

    def transpose(self, a, b):
        return SymTensor(np.swapaxes(self.a, a, b), self.kind)

    def t(self):
        return SymTensor(self.a.T, self.kind)

    def repeat(self, *s):
        return SymTensor(np.tile(self.a, shape_args(s)), self.kind)

    def repeat_interleave(self, n, dim=None):
        return SymTensor(np.repeat(self.a, n, axis=dim), self.kind)

    def flip(self, *d):
        return SymTensor(np.flip(self.a, dims(shape_args(d), self.a.ndim)), self.kind)

    def chunk(self, n, dim=0):
        s = self.a.shape[dim]
        step = -(-s // n)
        return tuple(SymTensor(b, self.kind) for b in np.split(self.a, list(range(step, s, step)), axis=dim))

    def split(self, n, dim=0):
        s = self.a.shape[dim]
        cuts = list(range(n, s, n)) if isinstance(n, _INT) else list(itertools.accumulate(n))[:-1]
        return tuple(SymTensor(b, self.kind) for b in np.split(self.a, cuts, axis=dim))

    def unbind(self, dim=0):
        return tuple(SymTensor(np.asarray(np.take(self.a, i, axis=dim), dtype=object), self.kind) for i in range(self.a.shape[dim]))

    # ------------------------------------------------------------ indexing
    def _split_index(self, i):
        """(basic index for a view, advanced index or None)"""
        i = fixi(i)
        t = i if type(i) is tuple else (i,)
        t = tuple(x.item() if isinstance(x, np.generic) else x for x in t)
        adv = any(isinstance(x, (nd, list)) for x in t)
        if not adv:
            if Ellipsis not in [x for x in t if x is Ellipsis]:
                t = t + (Ellipsis,)
            return t, None
        if not any(isinstance(x, _INT) and not isinstance(x, _BOOL) for x in t):
            return None, t
        # torch selects integers as basic indices, numpy mixes them with the arrays
        first, second = [], []
        for x in t:
            if isinstance(x, nd):
                first += [slice(None)] * (x.ndim if x.dtype == bool else 1)
                second.append(x)
            elif isinstance(x, _INT):
                first.append(x)
            elif x is None:
                first.append(None)
                second.append(slice(None))
            elif x is Ellipsis:
                first.append(Ellipsis)
                second.append(Ellipsis)
            else:
                first.append(x)
                second.append(slice(None))
        return tuple(first), tuple(second)

    def __getitem__(self, i):
        b, adv = self._split_index(i)
        a = self.a if b is None else self.a[b]
        if adv is not None:
            a = a[adv]
            if not isinstance(a, nd):
                a = obj0(a)
        return SymTensor(a, self.kind)

    def __setitem__(self, i, v):
        b, adv = self._split_index(i)
        a = self.a if b is None else self.a[b]
        val = raw(v)
        val = cast(val, self.kind)
        if a.size and not a.flags.writeable:
            raise RuntimeError("unsupported operation: more than one element of the written-to tensor refers to a single memory location")
        if adv is None:
            a[...] = val
        else:
            a[adv] = val if val.shape else val[()]

    def index_select(self, dim, index):
        return SymTensor(np.take(self.a, fixi(index), axis=dim), self.kind)

    def masked_select(self, m):
        return SymTensor(self.a[fixi(m)], self.kind)

    def masked_fill(self, m, v):
        r = emap(lambda c, x: ite(asb(c), v, x), raw(m), self.a)
        return SymTensor(cast(r, self.kind), self.kind)

    def masked_fill_(self, m, v):
        self.a[...] = self.masked_fill(m, v).a
        return self

    def fill_(self, v):
        self.a[...] = cast1(v.item() if type(v) is SymTensor else v, self.kind)
        return self

    def copy_(self, o):
        self.a[...] = cast(raw(o), self.kind)
        return self

    def gather(self, dim, index):
        idx = np.broadcast_to(fixi(index), index.shape)
        out = np.empty(idx.shape, dtype=object)
        dim = dim % self.a.ndim
        for p in np.ndindex(*idx.shape):
            q = p[:dim] + (int(idx[p]),) + p[dim + 1 :]
            out[p] = self.a[q]
        return SymTensor(out, self.kind)

    def scatter_(self, dim, index, src=None, value=None, **k):
        if value is None:
            value = src
        idx = fixi(index)
        dim = dim % max(self.a.ndim, 1)
        val = value.a if type(value) is SymTensor else None
        for p in np.ndindex(*idx.shape):
            q = p[:dim] + (int(idx[p]),) + p[dim + 1 :]
            self.a[q] = cast1(val[p] if val is not None else value, self.kind)
        return self

    def scatter(self, dim, index, src=None, value=None, **k):
        return self.clone().scatter_(dim, index, src, value)

    # ------------------------------------------------------------ reductions
    def _red(self, f, dim, keepdim, kind):
        return SymTensor(reduce_(f, self.a, dim, keepdim), kind)

    def all(self, dim=None, keepdim=False, axis=None):
        return self._red(lambda vs: conj([asb(v) for v in vs]), dim if axis is None else axis, keepdim, "b")

    def any(self, dim=None, keepdim=False, axis=None):
        return self._red(lambda vs: disj([asb(v) for v in vs]), dim if axis is None else axis, keepdim, "b")

    def sum(self, dim=None, keepdim=False, axis=None, dtype=None):
        k = "f" if self.kind == "f" else "i"
        return self._red(lambda vs: cast1(_fsum(vs), k), dim if axis is None else axis, keepdim, k)

    def prod(self, dim=None, keepdim=False, dtype=None):
        k = "f" if self.kind == "f" else "i"
        return self._red(lambda vs: cast1(_fprod(vs), k), dim, keepdim, k)

    def mean(self, dim=None, keepdim=False):
        return self._red(lambda vs: div1(_fsum(vs), len(vs)), dim, keepdim, "f")

    def _mm(self, f, op, dim, keepdim):
        if type(dim) is SymTensor:
            return binary(f)(self, dim)
        if dim is None:
            return self._red(_fold(f), None, False, self.kind)
        vals = self._red(_fold(f), dim, keepdim, self.kind)
        return LazyVals(vals, lambda: self._red(_argbest(op), dim, keepdim, "i"))

    def max(self, dim=None, keepdim=False, other=None):
        return self._mm(smax, ">", other if other is not None else dim, keepdim)

    def min(self, dim=None, keepdim=False, other=None):
        return self._mm(smin, "<", other if other is not None else dim, keepdim)

    def amax(self, dim=None, keepdim=False):
        return self._red(_fold(smax), dim, keepdim, self.kind)

    def amin(self, dim=None, keepdim=False):
        return self._red(_fold(smin), dim, keepdim, self.kind)

    def argmax(self, dim=None, keepdim=False):
        return self._red(_argbest(">"), dim, keepdim, "i")

    def argmin(self, dim=None, keepdim=False):
        return self._red(_argbest("<"), dim, keepdim, "i")

    def argsort(self, dim=-1, descending=False, stable=False):
        return SymTensor(sort_idx(self.a, dim, descending), "i")

    def sort(self, dim=-1, descending=False, stable=False):
        i = sort_idx(self.a, dim, descending)
        v = np.take_along_axis(self.a, i.astype(int), axis=dim) if self.a.ndim else self.a
        return Vals(SymTensor(v, self.kind), SymTensor(i, "i"))

    def cumsum(self, dim):
        return SymTensor(np.cumsum(self.a, axis=dim), "f" if self.kind == "f" else "i")

    def cumprod(self, dim):
        return SymTensor(np.cumprod(self.a, axis=dim), "f" if self.kind == "f" else "i")

    def nonzero(self, as_tuple=False):
        m = rt.force_bool(emap(asb, self.a))
        r = np.nonzero(m)
        if as_tuple:
            return tuple(SymTensor(objof(x), "i") for x in r)
        return SymTensor(objof(np.argwhere(m)), "i")

    def equal(self, o):
        if self.a.shape != raw(o).shape:
            return False
        return bool(conj([compare("==", x, y) if (is_sym(x) or is_sym(y)) else x == y for x, y in zip(self.a.flat, raw(o).flat)]))

    def unique(self, *a, **k):
        raise Unsupported("torch.unique on symbolic values")

    # ------------------------------------------------------------ elementwise
    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = binary(settled(smax, "<="))(r, min)
        if max is not None:
            r = binary(settled(smin, ">="))(r, max)
        return r

    clip = clamp

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    def clamp_(self, min=None, max=None):
        self.a[...] = cast(self.clamp(min, max).a, self.kind)
        return self

    def clamp_min_(self, v):
        return self.clamp_(min=v)

    def clamp_max_(self, v):
        return self.clamp_(max=v)

    def _map(self, f, kind="f"):
        return SymTensor(emap(f, self.a), kind)

    def sqrt(self):
        return self._map(lambda v: fn1("sqrt", v) if is_sym(v) else float(np.sqrt(v)))

    def exp(self):
        return self._map(_exp1)

    def log(self):
        return self._map(lambda v: fn1("log", v) if is_sym(v) else float(np.log(v)))

    def abs(self):
        return self._map(lambda v: abs(v), self.kind)

    def square(self):
        return self._map(lambda v: mul1(v, v), self.kind)

    def reciprocal(self):
        return self._map(lambda v: div1(1.0, v))

    def isinf(self):
        return self._map(lambda v: False if is_sym(v) else bool(np.isinf(v)), "b")

    def isnan(self):
        return self._map(lambda v: False if is_sym(v) else bool(np.isnan(v)), "b")

    def isfinite(self):
        return self._map(lambda v: True if is_sym(v) else bool(np.isfinite(v)), "b")

    def neg(self):
        return self._map(neg1, self.kind)

    __neg__ = neg
    negative = neg

    def __pos__(self):
        return self

    __abs__ = abs

    def logical_not(self):
        return self._map(lambda v: neg(asb(v)), "b")

    __invert__ = logical_not

    def dot(self, o):
        return (self * o).sum()

    def matmul(self, o):
        r = np.dot(self.a, raw(o)) if self.a.ndim <= 2 else np.matmul(self.a, raw(o))
        return mk(r)

    __matmul__ = mm = matmul

    def norm(self, p=2, dim=None, keepdim=False):
        return (self * self).sum(dim, keepdim).sqrt()

    def __contains__(self, v):
        return bool((self == v).any())

    def new_zeros(self, *s, **k):
        return full_(shape_args(s), 0, self.kind)

    def new_ones(self, *s, **k):
        return full_(shape_args(s), 1, self.kind)

    def new_full(self, s, v, **k):
        return full_(s, v, self.kind)

    def new_tensor(self, x, **k):
        return SymTensor(cast(raw(x), self.kind), self.kind)

    new_empty = new_zeros

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if torch is None or not hasattr(torch.Tensor, name):
            raise AttributeError(name)
        if not rt.arr_has_sym(self.a):
            return Native(self, name)
        raise Unsupported(f"torch.Tensor.{name} on symbolic values")


class LazyVals(tuple):
    """(values, indices) of max/min along a dimension; the indices fork only when used"""

    def __new__(cls, v, idx):
        o = tuple.__new__(cls, (v, None))
        o._idx = idx
        o._got = None
        return o

    @property
    def values(self):
        return tuple.__getitem__(self, 0)

    @property
    def indices(self):
        if self._got is None:
            self._got = self._idx()
        return self._got

    def __getitem__(self, i):
        return self.values if i in (0, -2) else self.indices

    def __iter__(self):
        return iter((self.values, self.indices))


class Native:
    def __init__(self, t, name):
        self.t, self.name = t, name

    def __call__(self, *a, **k):
        return wrap(getattr(native(self.t), self.name)(*[native(v) for v in a], **{n: native(v) for n, v in k.items()}))


def native(x):
    if type(x) is SymTensor:
        if rt.arr_has_sym(x.a):
            raise Unsupported("torch operation on symbolic values")
        return torch.tensor(x.a.tolist(), dtype=x.dtype).reshape(x.a.shape)
    if type(x) in (list, tuple):
        return type(x)(native(v) for v in x)
    return x


def wrap(x):
    if isinstance(x, torch.Tensor):
        return SymTensor(objof(x.detach().cpu().numpy()), {torch.bool: "b"}.get(x.dtype, "f" if x.dtype.is_floating_point else "i"))
    if type(x) in (list, tuple):
        return type(x)(wrap(v) for v in x)
    return x


def _exp1(v):
    if is_sym(v):
        return fn1("exp", v)
    with np.errstate(all="ignore"):
        return float(np.exp(v))


def binary(f, kind=None):
    def g(x, y):
        k = kind or promote(x, y)
        if f is div1 and k != "f":
            k = "f"
        if f in (add1, sub1, mul1) and k == "b":
            k = "b" if f is mul1 else "i"
        r = emap(f, raw(x), raw(y))
        return SymTensor(cast(r, k) if kind is None else r, k)

    return g


def settled(f, op):
    """max/min against a constant, without a case distinction where the path decides it"""

    def g(a, b):
        if is_sym(a) and not is_sym(b) and not sym._special(b):
            c = cur()
            t = sym.to_bool(compare(op, a, b))
            if c._check(t) == "unsat":
                return a
            if c._check(sym.Z.Not(t)) == "unsat":
                return b
        return f(a, b)

    return g


def cmp1(op):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            return compare(op, a, b)
        return bool(rt._CMP[op](a, b))

    return f


def _ok(o):
    return type(o) is SymTensor or is_sym(o) or sym.is_num(o) or isinstance(o, (nd, torch.Tensor))


def _install_ops():
    def setop(n, f, inplace=True, kind=None):
        b = binary(f, kind)

        def op(self, o):
            return b(self, o) if _ok(o) else NotImplemented

        def rop(self, o):
            return b(o, self) if _ok(o) else NotImplemented

        def iop(self, o):
            r = b(self, o).a
            if r.shape != self.a.shape:
                raise RuntimeError("output with shape does not match the broadcast shape")
            self.a[...] = cast(r, self.kind)
            return self

        setattr(SymTensor, f"__{n}__", op)
        setattr(SymTensor, f"__r{n}__", rop)
        if inplace:
            setattr(SymTensor, f"__i{n}__", iop)
        return op, iop

    for n, f, k in (("add", add1, None), ("sub", sub1, None), ("mul", mul1, None), ("truediv", div1, None), ("pow", pow1, None),
                    ("and", and1, "b"), ("or", or1, "b"), ("xor", xor1, "b")):
        op, iop = setop(n, f, True, k)
        m = {"truediv": "div", "and": "logical_and", "or": "logical_or", "xor": "logical_xor"}.get(n, n)
        setattr(SymTensor, m, op)
        setattr(SymTensor, m + "_", iop)
    SymTensor.__floordiv__ = lambda s, o: SymTensor(emap(lambda a, b: a // b, raw(s), raw(o)), promote(s, o))
    SymTensor.__mod__ = lambda s, o: SymTensor(emap(lambda a, b: a % b, raw(s), raw(o)), promote(s, o))
    for n, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        b = binary(cmp1(op), "b")

        def c(self, o, b=b, op=op):
            if not _ok(o):
                return NotImplemented if op not in ("==", "!=") else op == "!="
            return b(self, o)

        setattr(SymTensor, f"__{n}__", c)
        setattr(SymTensor, n, c)
    SymTensor.maximum = lambda s, o: binary(smax)(s, o)
    SymTensor.minimum = lambda s, o: binary(smin)(s, o)
    SymTensor.bitwise_and, SymTensor.bitwise_or, SymTensor.bitwise_not = SymTensor.logical_and, SymTensor.logical_or, SymTensor.logical_not


def full_(shape, v, kind):
    shape = shape_args((shape,)) if isinstance(shape, (tuple, list)) else (int(shape),)
    out = np.empty(shape, dtype=object)
    v = cast1(v.item() if type(v) is SymTensor else v, kind)
    for i in range(out.size):
        out.flat[i] = v
    return SymTensor(out, kind)


def install():
    global torch
    import torch as _torch

    torch = _torch
    _install_ops()
    S = rt.STUB
    T = torch

    def ctor(x=(), dtype=None, device=None, requires_grad=False, **k):
        a = raw(x)
        a = a.copy()
        kind = _kind_dtype(dtype)
        return SymTensor(cast(a, kind) if kind else objcopy(a), kind, dtype)

    def objcopy(a):
        k = kind_of(a)
        return cast(a, k)

    def as_tensor(x, dtype=None, device=None):
        if type(x) is SymTensor:
            return x.to(dtype=dtype) if dtype is not None and _kind_dtype(dtype) != x.kind else x
        return ctor(x, dtype)

    def Tensor(*a):
        if len(a) == 1 and not isinstance(a[0], _INT):
            return SymTensor(cast(raw(a[0]), "f"), "f")
        return full_(a, 0.0, "f") if a else SymTensor(np.empty((0,), dtype=object), "f")

    S[T.Tensor] = S[T.FloatTensor] = S[T.DoubleTensor] = Tensor
    S[T.tensor] = ctor
    S[T.as_tensor] = S[T.asarray] = as_tensor
    S[T.from_numpy] = as_tensor

    def shaped(fill):
        def f(*s, dtype=None, device=None, **k):
            s = k.get("size", s)
            return full_(shape_args(tuple(s) if not isinstance(s, tuple) else s), fill, _kind_dtype(dtype) or "f")

        return f

    def fulls(size, fill_value, dtype=None, **k):
        kind = _kind_dtype(dtype) or (kind_of(obj0(fill_value)) if type(fill_value) is not SymTensor else fill_value.kind)
        return full_(tuple(size) if not isinstance(size, _INT) else (size,), fill_value, kind)

    def like(fill):
        def f(x, dtype=None, **k):
            return full_(tuple(x.shape), fill, _kind_dtype(dtype) or (x.kind if type(x) is SymTensor else wrap(x).kind))

        return f

    S[T.zeros], S[T.ones], S[T.empty] = shaped(0), shaped(1), shaped(0)
    S[T.full] = fulls
    S[T.zeros_like], S[T.ones_like], S[T.empty_like] = like(0), like(1), like(0)
    S[T.full_like] = lambda x, fill_value, dtype=None, **k: full_(tuple(x.shape), fill_value, _kind_dtype(dtype) or x.kind)

    def arange(*a, dtype=None, device=None, **k):
        a = [int(_ci(v.item())) if type(v) is SymTensor else v for v in a]
        r = np.arange(*a)
        kind = _kind_dtype(dtype) or ("i" if r.dtype.kind == "i" else "f")
        return SymTensor(cast(objof(r), kind), kind)

    S[T.arange] = arange
    S[T.eye] = lambda n, m=None, **k: SymTensor(objof(np.eye(n, m)), "f")
    S[T.linspace] = lambda *a, **k: wrap(T.linspace(*a, **k))

    def cat(ts, dim=0, axis=None):
        ts = list(ts)
        dim = dim if axis is None else axis
        ts2 = [t for t in ts if not (raw(t).shape == (0,))] or ts
        kind = promote(*ts)
        return SymTensor(cast(np.concatenate([raw(t) for t in ts2], axis=dim), kind), kind)

    S[T.cat] = S[T.concat] = cat
    S[T.concatenate] = cat
    S[T.stack] = lambda ts, dim=0: SymTensor(np.stack([raw(t) for t in ts], axis=dim), promote(*ts))
    S[T.vstack] = lambda ts: SymTensor(np.vstack([raw(t) for t in ts]), promote(*ts))
    S[T.hstack] = lambda ts: SymTensor(np.hstack([raw(t) for t in ts]), promote(*ts))

    def where(c, *a):
        if not a:
            return c.nonzero(as_tuple=True)
        x, y = a
        kind = promote(x, y)
        return SymTensor(cast(emap(lambda p, u, v: ite(asb(p), u, v), raw(c), raw(x), raw(y)), kind), kind)

    S[T.where] = where

    def m(name):
        def f(x, *a, **k):
            x = x if type(x) is SymTensor else (wrap(x) if isinstance(x, T.Tensor) else ctor(x))
            if "input" in k:
                x = k.pop("input")
            return getattr(x, name)(*a, **k)

        return f

    for name in ("all any sum prod mean max min amax amin argmax argmin argsort sort cumsum cumprod nonzero equal clamp clip clamp_min clamp_max "
                 "sqrt exp log abs square reciprocal isinf isnan isfinite neg negative logical_not logical_and logical_or logical_xor bitwise_and bitwise_or bitwise_not "
                 "add sub mul div pow lt le gt ge eq ne maximum minimum unsqueeze squeeze flatten permute transpose flip chunk split unbind gather scatter index_select masked_select "
                 "matmul mm dot norm reshape clone ravel numel").split():
        fn = getattr(T, name, None)
        if fn is not None:
            S[fn] = m(name)
    for a, b in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("not_equal", "ne"), ("true_divide", "div"), ("divide", "div"),
                 ("multiply", "mul"), ("subtract", "sub"), ("absolute", "abs")):
        if hasattr(T, a):
            S[getattr(T, a)] = m(b)
    S[T.is_tensor] = lambda x: type(x) is SymTensor or isinstance(x, T.Tensor)
    S[T.broadcast_to] = lambda x, s: x.expand(*s)
    S[T.tile] = lambda x, s: SymTensor(np.tile(x.a, s), x.kind)

    reg0 = T.nn.Module.register_buffer

    def register_buffer(self, name, tensor, *a, **k):
        if type(tensor) is SymTensor:
            self.__dict__[name] = tensor
            return None
        return reg0(self, name, tensor, *a, **k)

    T.nn.Module.register_buffer = register_buffer

    N = T.distributions.Normal
    cdf0, lp0 = N.cdf, N.log_prob

    def cdf(self, v):
        if type(v) is SymTensor:
            return v._map(lambda x: (1.0 if far(x) else fn1("cdf", x)) if is_sym(x) else float(0.5 * (1 + _erf(x / np.sqrt(2)))))
        return cdf0(self, v)

    def log_prob(self, v):
        if type(v) is SymTensor:
            c = float(np.log(np.sqrt(2 * np.pi)))
            r = v._map(lambda x: sub1(div1(mul1(neg1(x), x), 2.0), c))
            return LogPdf(r.a, v.a)
        return lp0(self, v)

    N.cdf, N.log_prob = cdf, log_prob
    ninit = N.__init__

    def init(self, loc, scale, validate_args=None):
        f = lambda x: native(x) if type(x) is SymTensor else x
        return ninit(self, f(loc), f(scale), validate_args=validate_args)

    N.__init__ = init


def far(x):
    """is x one of the terms a harness declared to stand for +infinity?"""
    ts = cur().user.get("far")
    if not ts:
        return False
    t = sym.Z.simplify(to_real(x), som=True)
    return any(sym.Z.eq(t, sym.Z.simplify(to_real(f), som=True)) for f in ts)


class LogPdf:
    """log-density of the standard normal; exp() of it is the density"""

    _is_symtensor = True

    def __init__(self, a, x):
        self.a, self.x = a, x

    def exp(self):
        return SymTensor(emap(lambda v: (0.0 if far(v) else fn1("pdf", v)) if is_sym(v) else float(np.exp(-v * v / 2) / np.sqrt(2 * np.pi)), self.x), "f")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(SymTensor(self.a, "f"), n)


def _erf(x):
    import math

    return math.erf(x)
