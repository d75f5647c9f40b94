"""Symbolic values and path exploration.

A symbolic value wraps a z3 term.  Branching on a symbolic Boolean forks: the program is
re-executed once per feasible decision sequence (depth-first).  Sides that the solver shows
infeasible are cut; `unknown` counts as feasible.  Reals are mathematical reals, Python ints are
mathematical integers, strings are z3 strings.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import numpy as np

from .z3load import z3

Z = z3
_INF = float("inf")


_cur = None  # the active context


class PathAbort(BaseException):
    """internal control flow: the current path is over"""

    def __init__(self, *a):
        super().__init__(*a)
        if _cur is not None and _cur.symbolic:
            _cur.flags.add("aborted")


class Unsupported(Exception):
    """the engine cannot encode the operation"""

    def __init__(self, *a):
        super().__init__(*a)
        if _cur is not None and _cur.symbolic:
            _cur.flags.add("unsupported")
            _cur.st.unsupported.append(str(self))


class DivZero(ZeroDivisionError, RuntimeWarning):
    pass


class DomainWarn(RuntimeWarning):
    pass


# ---------------------------------------------------------------- helpers


def cur():
    return _cur


def set_cur(c):
    global _cur
    _cur = c


def is_sym(x):
    return type(x) in _SYMTYPES


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


def rv(x):
    """concrete number -> z3 Real value"""
    f = frac(x)
    return Z.RatVal(f.numerator, f.denominator) if f.denominator != 1 else Z.RealVal(f.numerator)


def is_num(x):
    t = type(x)
    if t in _SYMTYPES:
        return False
    return t in (int, float, bool, Fraction) or isinstance(x, (np.integer, np.floating, np.bool_)) or isinstance(x, (int, float))


def _special(x):
    """nan/inf float?"""
    return type(x) not in _SYMTYPES and isinstance(x, (float, np.floating)) and not math.isfinite(x)


def to_real(x):
    """term of sort Real, or None if x is not a number"""
    t = type(x)
    if t is SReal:
        return x.t
    if t is SInt:
        return Z.ToReal(x.t)
    if t is SBool:
        return Z.If(x.t, Z.RealVal(1), Z.RealVal(0))
    if is_num(x):
        return rv(x)
    return None


def to_int(x):
    t = type(x)
    if t is SInt:
        return x.t
    if t is SBool:
        return Z.If(x.t, Z.IntVal(1), Z.IntVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return Z.IntVal(int(x))
    return None


def to_bool(x):
    t = type(x)
    if t is SBool:
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return Z.BoolVal(bool(x))
    if t is SInt:
        return x.t != 0
    if t is SReal:
        return x.t != 0
    if is_num(x):
        return Z.BoolVal(x != 0)
    return Z.BoolVal(bool(x))


def mkbool(t):
    """z3 Bool -> SBool or concrete bool"""
    if isinstance(t, bool):
        return t
    s = Z.simplify(t)
    if Z.is_true(s):
        return True
    if Z.is_false(s):
        return False
    return SBool(s)


def mkreal(t):
    if Z.is_rational_value(t):
        pass
    return SReal(t)


def _intlike(x):
    if type(x) in (SReal, Dual, SStr):
        return False
    return type(x) in (SInt, SBool) or isinstance(x, (int, np.integer, bool, np.bool_))


PICKLED = {}


def _unpickle(i):
    return PICKLED[i]


class SVal:
    __slots__ = ("t",)
    __array_priority__ = -1

    def __init__(self, t):
        self.t = t

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{type(self).__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return 7

    def __reduce__(self):  # by reference, within this process
        PICKLED[id(self)] = self
        return _unpickle, (id(self),)


# ---------------------------------------------------------------- arithmetic
def _is1(t):
    return Z.is_rational_value(t) and t.numerator_as_long() == 1 and t.denominator_as_long() == 1


def _is0(t):
    return Z.is_rational_value(t) and t.numerator_as_long() == 0


def arith(op, a, b):
    """a op b where at least one side is symbolic (SReal/SInt/SBool/number)."""
    if type(a) is Dual or type(b) is Dual:
        return dual_arith(op, a, b)
    if type(a) is SFun or type(b) is SFun:
        pass
    if not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
        return NotImplemented
    if type(a) is SStr or type(b) is SStr:
        return NotImplemented
    # infinities and NaN
    if _special(a) or _special(b):
        return _special_arith(op, a, b)
    if _intlike(a) and _intlike(b) and op in ("+", "-", "*", "//", "%"):
        x, y = to_int(a), to_int(b)
        if op == "+":
            return SInt(x + y)
        if op == "-":
            return SInt(x - y)
        if op == "*":
            return SInt(x * y)
        _nonzero(y, Z.IntVal(0))
        q = Z.If(y > 0, x / y, -(x / (-y)) if False else ((-x) / (-y)))
        # z3 integer division is Euclidean; for y > 0 it is floor. For y < 0 use floor((-x)/(-y)).
        if op == "//":
            return SInt(q)
        return SInt(x - y * q)
    x, y = to_real(a), to_real(b)
    if op == "+":
        return SReal(y if _is0(x) else (x if _is0(y) else x + y))
    if op == "-":
        return SReal(x if _is0(y) else x - y)
    if op == "*":
        if _is0(x) or _is0(y):
            return 0.0
        return SReal(y if _is1(x) else (x if _is1(y) else x * y))
    if op == "/":
        if _is1(y):
            return SReal(x)
        _nonzero(y, Z.RealVal(0))
        if Z.is_rational_value(y):
            return SReal(x * Z.Q(y.denominator_as_long(), y.numerator_as_long()))
        c = cur()
        if c is not None and c.name_div:
            return SReal(c.div(x, y))
        return SReal(x / y)
    if op == "//":
        _nonzero(y, Z.RealVal(0))
        return SReal(Z.ToReal(Z.ToInt(x / y)))
    if op == "%":
        _nonzero(y, Z.RealVal(0))
        return SReal(x - y * Z.ToReal(Z.ToInt(x / y)))
    if op == "**":
        return power(a, b)
    return NotImplemented


def _nonzero(y, zero):
    """fork on a zero divisor; the zero side raises as numpy (warnings are errors) / Python do"""
    c = cur()
    if Z.is_rational_value(y) or Z.is_int_value(y):
        if Z.is_true(Z.simplify(y == zero)):
            raise DivZero("divide by zero")
        return
    if c.branch(_signed("==", y, zero)):
        raise DivZero("divide by zero encountered")


def _factors(t):
    """factors of a product / quotient, or None"""
    if Z.is_mul(t) or Z.is_div(t):
        out = []
        for k in t.children():
            out.extend(_factors(k) or [k])
        return out
    return None


def _signed(op, x, y):
    """comparison of a product with zero as a condition on the signs of its factors (opt-in: case option `signs`)"""
    plain = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    c = cur()
    if c is None or not getattr(c, "signs", False) or not c.symbolic:
        return plain
    if not (Z.is_rational_value(y) and y.numerator_as_long() == 0):
        return plain
    fs = _factors(Z.simplify(x)) or _factors(x)
    if not fs or len(fs) > 8:
        return plain
    pos, neg_ = None, None
    for f in fs:
        p, n = f > 0, f < 0
        if pos is None:
            pos, neg_ = p, n
        else:
            pos, neg_ = Z.Or(Z.And(pos, p), Z.And(neg_, n)), Z.Or(Z.And(pos, n), Z.And(neg_, p))
    return {">": pos, "<": neg_, ">=": Z.Not(neg_), "<=": Z.Not(pos), "==": Z.Not(Z.Or(pos, neg_)), "!=": Z.Or(pos, neg_)}[op]


def _special_arith(op, a, b):
    sa, sb = _special(a), _special(b)
    if (sa and math.isnan(a)) or (sb and math.isnan(b)):
        return float("nan")
    if op in ("+", "-"):
        if sa:
            return float(a)
        return float(b) if op == "+" else -float(b)
    if op == "*":
        inf, o = (a, b) if sa else (b, a)
        ot = to_real(o)
        if cur().branch(ot > 0):
            return float(inf)
        if cur().branch(ot < 0):
            return -float(inf)
        return float("nan")
    if op == "/":
        if sb:
            return 0.0
        if cur().branch(to_real(b) > 0):
            return float(a)
        return -float(a)
    raise Unsupported(f"{op} with infinity")


def power(a, b):
    if type(a) is Dual or type(b) is Dual:
        return dual_arith("**", a, b)
    if not is_sym(b):
        p = float(b)
        if p == 0:
            return 1.0
        if p == int(p):
            n = abs(int(p))
            x = a
            out = None
            for _ in range(n):
                out = x if out is None else arith("*", out, x)
            return out if p > 0 else arith("/", 1.0, out)
        if p * 2 == int(p * 2):
            s = cur().sqrt(a)
            return power(s, p * 2)
        return cur().uf_pow(a, p)
    if not is_sym(a):
        if float(a) == 1.0:
            return 1.0
        if type(b) is SBool and float(a) == -1.0:
            return SInt(Z.If(b.t, Z.IntVal(-1), Z.IntVal(1)))
        if _intlike(b) and float(a) == -1.0:
            return SInt(Z.If(to_int(b) % 2 == 0, Z.IntVal(1), Z.IntVal(-1)))
        if float(a) > 0:
            # a**b = exp(b*log a)
            return cur().uf("exp", arith("*", b, math.log(float(a))))
    raise Unsupported("power with a symbolic exponent")


def compare(op, a, b):
    """a op b -> SBool | bool | NotImplemented"""
    if type(a) is Dual:
        a = a.v
    if type(b) is Dual:
        b = b.v
    if type(a) is SStr or type(b) is SStr:
        x, y = to_str(a), to_str(b)
        if x is None or y is None:
            return NotImplemented if op not in ("==", "!=") else (op == "!=")
        if op == "==":
            return mkbool(x == y)
        if op == "!=":
            return mkbool(x != y)
        if op == "<":
            return mkbool(x < y)
        if op == "<=":
            return mkbool(x <= y)
        if op == ">":
            return mkbool(y < x)
        return mkbool(y <= x)
    if not is_sym(a) and not is_sym(b):
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                "==": lambda: a == b, "!=": lambda: a != b}[op]()
    if not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
        if hasattr(a, "_is_symtensor") or hasattr(b, "_is_symtensor"):
            return NotImplemented
        if op == "==":
            return False if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) else NotImplemented
        if op == "!=":
            return True if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) else NotImplemented
        return NotImplemented
    for u, v, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op])):
        if _special(u):
            if math.isnan(u):
                return o == "!="
            # u is +-inf, v is a finite symbolic number
            if o == "==":
                return False
            if o == "!=":
                return True
            return (u > 0) if o in (">", ">=") else (u < 0)
    if type(a) in (SBool,) and type(b) in (SBool, bool, np.bool_) or type(b) is SBool and isinstance(a, (bool, np.bool_)):
        if op == "==":
            return mkbool(to_bool(a) == to_bool(b))
        if op == "!=":
            return mkbool(to_bool(a) != to_bool(b))
    if _intlike(a) and _intlike(b):
        x, y = to_int(a), to_int(b)
    else:
        x, y = to_real(a), to_real(b)
        c = cur()
        if getattr(c, "signs", False):
            if _is0(y):
                return mkbool(_signed(op, x, y))
            if _is0(x):
                return mkbool(_signed({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), y, x))
    if op == "<":
        return mkbool(x < y)
    if op == "<=":
        return mkbool(x <= y)
    if op == ">":
        return mkbool(x > y)
    if op == ">=":
        return mkbool(x >= y)
    if op == "==":
        return mkbool(x == y)
    return mkbool(x != y)


def _bin(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return arith(op, self, o)

    def r(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return arith(op, o, self)

    return f, r


def _cmpm(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return compare(op, self, o)

    return f


class SNum(SVal):
    __slots__ = ()
    __add__, __radd__ = _bin("+")
    __sub__, __rsub__ = _bin("-")
    __mul__, __rmul__ = _bin("*")
    __truediv__, __rtruediv__ = _bin("/")
    __floordiv__, __rfloordiv__ = _bin("//")
    __mod__, __rmod__ = _bin("%")
    __pow__, __rpow__ = _bin("**")
    __lt__ = _cmpm("<")
    __le__ = _cmpm("<=")
    __gt__ = _cmpm(">")
    __ge__ = _cmpm(">=")
    __eq__ = _cmpm("==")
    __ne__ = _cmpm("!=")
    __hash__ = SVal.__hash__

    def __pos__(self):
        return self

    def __bool__(self):
        return cur().branch(to_bool(self))

    def __float__(self):
        return cur().concretize(self)

    def __abs__(self):
        return ite(compare(">=", self, 0), self, -self)

    # numpy calls these on elements of object arrays
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def sqrt(self):
        return cur().sqrt(self)

    def exp(self):
        return cur().uf("exp", self)

    def log(self):
        return cur().uf("log", self)

    def log10(self):
        return cur().uf("log10", self)

    def square(self):
        return self * self

    def is_integer(self):
        if type(self) is SReal:
            return mkbool(Z.IsInt(self.t))
        return True

    def item(self):
        return self


class SReal(SNum):
    __slots__ = ()
    __class__ = property(lambda self: float)
    __hash__ = SVal.__hash__

    def __neg__(self):
        return SReal(-self.t)

    def __floor__(self):
        return SInt(Z.ToInt(self.t))

    def floor(self):
        return SReal(Z.ToReal(Z.ToInt(self.t)))

    def ceil(self):
        return SReal(-Z.ToReal(Z.ToInt(-self.t)))

    def __ceil__(self):
        return SInt(-Z.ToInt(-self.t))

    def __trunc__(self):
        return trunc(self)

    def __int__(self):
        return int(cur().fork_int(trunc(self)))

    def rint(self):
        return round_half_even(self, 0)

    def __round__(self, n=None):
        r = round_half_even(self, n or 0)
        return r if n is not None else SInt(Z.ToInt(r.t))


class SInt(SNum):
    __slots__ = ()
    __class__ = property(lambda self: int)
    __hash__ = SVal.__hash__

    def __neg__(self):
        return SInt(-self.t)

    def __index__(self):
        return cur().fork_int(self)

    def __int__(self):
        return cur().fork_int(self)

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def floor(self):
        return SReal(Z.ToReal(self.t))

    def __round__(self, n=None):
        return self

    def rint(self):
        return SReal(Z.ToReal(self.t))

    def bit_length(self):
        raise Unsupported("bit_length")


class SBool(SNum):
    __slots__ = ()
    __class__ = property(lambda self: bool)
    __hash__ = SVal.__hash__

    def __neg__(self):
        return SInt(-to_int(self))

    def __bool__(self):
        return cur().branch(self.t)

    def __index__(self):
        return int(cur().branch(self.t))

    __int__ = __index__

    def __invert__(self):
        return mkbool(Z.Not(self.t))

    logical_not = __invert__

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(Z.And(self.t, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(Z.Or(self.t, to_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(Z.Xor(self.t, to_bool(o)))

    __rxor__ = __xor__

    def any(self, *a, **k):
        return self

    all = any


class SStr(SVal):
    __slots__ = ()
    __class__ = property(lambda self: str)
    __hash__ = SVal.__hash__
    __lt__ = _cmpm("<")
    __le__ = _cmpm("<=")
    __gt__ = _cmpm(">")
    __ge__ = _cmpm(">=")
    __eq__ = _cmpm("==")
    __ne__ = _cmpm("!=")

    def __add__(self, o):
        y = to_str(o)
        return NotImplemented if y is None else SStr(Z.Concat(self.t, y))

    def __radd__(self, o):
        y = to_str(o)
        return NotImplemented if y is None else SStr(Z.Concat(y, self.t))

    def __bool__(self):
        return cur().branch(Z.Length(self.t) > 0)

    def __len__(self):
        return cur().fork_int(SInt(Z.Length(self.t)))

    def __contains__(self, o):
        return cur().branch(Z.Contains(self.t, to_str(o)))

    def startswith(self, o):
        return mkbool(Z.PrefixOf(to_str(o), self.t))

    def endswith(self, o):
        return mkbool(Z.SuffixOf(to_str(o), self.t))

    def isdigit(self):
        d = Z.Plus(Z.Range("0", "9"))
        return mkbool(Z.InRe(self.t, d))

    def __getitem__(self, i):
        raise Unsupported("indexing a symbolic string")

    def __iter__(self):
        raise Unsupported("iterating over a symbolic string")


class SFun(SVal):
    __slots__ = ()


class Dual:
    """value + directional derivative; used for the derivative properties"""

    __slots__ = ("v", "d")
    __class__ = property(lambda self: float)
    __array_priority__ = -1

    def __init__(self, v, d=0.0):
        self.v = v
        self.d = d

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<Dual>"

    def __format__(self, s):
        return "<Dual>"

    def __hash__(self):
        return 7

    __add__, __radd__ = _bin("+")
    __sub__, __rsub__ = _bin("-")
    __mul__, __rmul__ = _bin("*")
    __truediv__, __rtruediv__ = _bin("/")
    __pow__, __rpow__ = _bin("**")
    __lt__ = _cmpm("<")
    __le__ = _cmpm("<=")
    __gt__ = _cmpm(">")
    __ge__ = _cmpm(">=")
    __eq__ = _cmpm("==")
    __ne__ = _cmpm("!=")

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.v >= 0:
            return self
        return -self

    def __bool__(self):
        return bool(self.v != 0)

    def __float__(self):
        return cur().concretize(self.v)

    def sqrt(self):
        return fn1("sqrt", self)

    def exp(self):
        return fn1("exp", self)

    def log(self):
        return fn1("log", self)

    def square(self):
        return self * self

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


_SYMTYPES = frozenset((SReal, SInt, SBool, SStr, Dual))


def _parts(x):
    return (x.v, x.d) if type(x) is Dual else (x, 0.0)


def _A(op, a, b):
    if is_sym(a) or is_sym(b):
        return arith(op, a, b)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a**b}[op]()


def dual_arith(op, a, b):
    if not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
        return NotImplemented
    (av, ad), (bv, bd) = _parts(a), _parts(b)
    if op == "+":
        return Dual(_A("+", av, bv), _A("+", ad, bd))
    if op == "-":
        return Dual(_A("-", av, bv), _A("-", ad, bd))
    if op == "*":
        return Dual(_A("*", av, bv), _A("+", _A("*", av, bd), _A("*", ad, bv)))
    if op == "/":
        q = _A("/", av, bv)
        return Dual(q, _A("/", _A("-", ad, _A("*", q, bd)), bv))
    if op == "**":
        if is_sym(b):
            raise Unsupported("dual exponent")
        p = float(b)
        if p == 0:
            return 1.0
        if p == 1:
            return a
        return Dual(_A("**", av, p), _A("*", _A("*", p, _A("**", av, p - 1)), ad))
    raise Unsupported(f"dual {op}")


def to_str(x):
    if type(x) is SStr:
        return x.t
    if isinstance(x, str):
        return Z.StringVal(str(x))
    return None


def trunc(x):
    if type(x) in (SInt,):
        return x
    if type(x) is SBool:
        return SInt(to_int(x))
    if type(x) is Dual:
        return trunc(x.v)
    if not is_sym(x):
        return int(x)
    return SInt(Z.If(x.t >= 0, Z.ToInt(x.t), -Z.ToInt(-x.t)))


def floor(x):
    if not is_sym(x):
        return float(np.floor(x))
    if type(x) in (SInt, SBool):
        return SReal(to_real(x))
    return SReal(Z.ToReal(Z.ToInt(x.t)))


def ceil(x):
    if not is_sym(x):
        return float(np.ceil(x))
    if type(x) in (SInt, SBool):
        return SReal(to_real(x))
    return SReal(-Z.ToReal(Z.ToInt(-x.t)))


def round_half_even(x, p):
    """np.round(x, p) over the reals: rint(x * 10**p) / 10**p"""
    if not is_sym(x):
        return float(np.round(float(x), p))
    if type(x) in (SInt, SBool) and p >= 0:
        return x
    s = Z.RealVal(10**p) if p >= 0 else Z.Q(1, 10 ** (-p))
    y = Z.simplify(x.t * s)
    c = cur()
    key = ("rint", y.get_id())
    if key in c.memo:
        k = c.memo[key][1]
    else:
        # the nearest integer, ties to even, as a fresh integer
        k = Z.Int(f"$rint{len(c.memo)}")
        half = Z.Q(1, 2)
        d = y - Z.ToReal(k)
        c.add(Z.And(d >= -half, d <= half))
        c.add(Z.Implies(Z.Or(d == half, d == -half), k % 2 == 0))
        c.model = None
        c.memo[key] = (y, k)
        c.rints.append(k)
    return SReal(Z.ToReal(k) / s)


def ite(c, a, b):
    """merge two values under a (symbolic) condition; no fork"""
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    if type(a) is Dual or type(b) is Dual:
        (av, ad), (bv, bd) = _parts(a), _parts(b)
        return Dual(ite(c, av, bv), ite(c, ad, bd))
    if type(a) is SStr or type(b) is SStr:
        return SStr(Z.If(to_bool(c), to_str(a), to_str(b)))
    if (type(a) is SBool or isinstance(a, (bool, np.bool_))) and (type(b) is SBool or isinstance(b, (bool, np.bool_))):
        return mkbool(Z.If(to_bool(c), to_bool(a), to_bool(b)))
    if _special(a) or _special(b) or not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
        return a if bool(c) else b
    if _intlike(a) and _intlike(b):
        return SInt(Z.If(to_bool(c), to_int(a), to_int(b)))
    return SReal(Z.If(to_bool(c), to_real(a), to_real(b)))


def isnan(x):
    return not is_sym(x) and isinstance(x, (float, np.floating)) and x != x


def smin(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return ite(compare("<=", a, b), a, b)


def smax(a, b):
    if isnan(a):
        return a
    if isnan(b):
        return b
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return ite(compare(">=", a, b), a, b)


def conj(xs):
    xs = list(xs)
    if any(not is_sym(x) and not x for x in xs):
        return False
    ts = [to_bool(x) for x in xs if is_sym(x)]
    if not ts:
        return True
    return mkbool(Z.And(ts) if len(ts) > 1 else ts[0])


def disj(xs):
    xs = list(xs)
    if any(not is_sym(x) and x for x in xs):
        return True
    ts = [to_bool(x) for x in xs if is_sym(x)]
    if not ts:
        return False
    return mkbool(Z.Or(ts) if len(ts) > 1 else ts[0])


def neg(x):
    return mkbool(Z.Not(to_bool(x))) if is_sym(x) else (not x)


# ---------------------------------------------------------------- transcendental functions
_SQ2PI = math.sqrt(2 * math.pi)


def _ncdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


CONCRETE = {
    "exp": lambda x: math.exp(x) if x < 709 else float(np.exp(x)),
    "log": lambda x: float(np.log(x)),
    "log10": lambda x: float(np.log10(x)),
    "log1p": lambda x: float(np.log1p(x)),
    "expm1": lambda x: float(np.expm1(x)),
    "sqrt": lambda x: float(np.sqrt(x)),
    "cdf": _ncdf,
    "pdf": lambda x: math.exp(-x * x / 2) / _SQ2PI,
    "logcdf": lambda x: float(__import__("scipy.special").special.log_ndtr(x)),
    "logit": lambda x: float(np.log(x / (1 - x))),
}


def fn1(name, x):
    """apply a scalar function to a number, symbolic number or dual"""
    if type(x) is Dual:
        v, d = x.v, x.d
        f = fn1(name, v)
        if name == "exp":
            return Dual(f, _A("*", f, d))
        if name == "log":
            return Dual(f, _A("/", d, v))
        if name == "sqrt":
            return Dual(f, _A("/", d, _A("*", 2.0, f)))
        if name == "cdf":
            return Dual(f, _A("*", fn1("pdf", v), d))
        if name == "pdf":
            return Dual(f, _A("*", _A("*", -1.0, _A("*", v, f)), d))
        raise Unsupported(f"derivative of {name}")
    if not is_sym(x):
        v = float(x)
        if name in ("log", "log10", "sqrt") and v < 0:
            raise DomainWarn(f"invalid value in {name}")
        if name in ("log", "log10") and v == 0:
            raise DomainWarn("divide by zero in log")
        return CONCRETE[name](v)
    c = cur()
    if name == "sqrt":
        return c.sqrt(x)
    if name == "expm1":
        return c.uf("exp", x) - 1
    if name == "log1p":
        return c.uf("log", 1 + x)
    if name == "logit":
        return c.uf("log", x / (1 - x))
    return c.uf(name, x)
