"""Execution contexts: SymCtx (symbolic, forking) and ReplayCtx (concrete values)."""
from __future__ import annotations

import math
import os
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym
from .sym import (Dual, PathAbort, SBool, SInt, SReal, SStr, SVal, Unsupported, Z, DomainWarn, compare, conj, disj,
                  is_num, is_sym, ite, mkbool, neg, rv, smax, smin, to_bool, to_int, to_real, to_str)


class Assume(BaseException):
    """a replayed input does not satisfy an assumption"""


_MISSING = object()


class BaseCtx:
    symbolic = False
    last = False

    def patch(self, obj, name, value):
        """replace an attribute for the rest of this path"""
        self._patches.append((obj, name, obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else _MISSING))
        setattr(obj, name, value)

    def unpatch(self):
        for obj, name, old in reversed(self._patches):
            if old is _MISSING:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._patches = []

    # --- logic helpers usable on symbolic and concrete values
    def all(self, xs):
        return conj(xs)

    def any(self, xs):
        return disj(xs)

    def neg(self, x):
        return neg(x)

    def implies(self, a, b):
        return disj([neg(a), b])

    def iff(self, a, b):
        return disj([conj([a, b]), conj([neg(a), neg(b)])])

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        return compare("==", a, b)

    def seq_eq(self, a, b):
        a, b = list(a), list(b)
        if len(a) != len(b):
            return False
        return conj([self.val_eq(x, y) for x, y in zip(a, b)])

    def val_eq(self, a, b):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
                return False
            return self.seq_eq(a, b)
        if is_sym(a) or is_sym(b):
            return compare("==", a, b)
        try:
            return bool(a == b)
        except Exception:
            return False

    def min(self, xs):
        xs = list(xs)
        out = xs[0]
        for x in xs[1:]:
            out = smin(out, x)
        return out

    def max(self, xs):
        xs = list(xs)
        out = xs[0]
        for x in xs[1:]:
            out = smax(out, x)
        return out

    def abs(self, x):
        return smax(x, -x)

    def fresh(self, kind):
        n = self._cnt.get(kind, 0)
        self._cnt[kind] = n + 1
        return f"{kind}[{n}]"

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real(f"{name}{i}", lo, hi, **k) for i in range(n)]

    def array(self, rows):
        """array of (symbolic) numbers; float dtype on replay"""
        a = np.empty(_shape(rows), dtype=object)
        flat = list(_flatten(rows))
        for i, v in enumerate(flat):
            a.flat[i] = v
        if not self.symbolic and flat and all(is_num(v) for v in flat):
            return a.astype(float)
        return a

    def near(self, a, b, tol=1e-6):
        """|a-b| <= tol * (1 + |a| + |b|)"""
        d = self.abs(sub(a, b))
        return compare("<=", d, tol * (1 + self.abs(a) + self.abs(b)))


def sub(a, b):
    return sym._A("-", a, b)


def _shape(x):
    s = []
    while isinstance(x, (list, tuple)):
        s.append(len(x))
        if not len(x):
            break
        x = x[0]
    return tuple(s)


def _flatten(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from _flatten(v)
    else:
        yield x


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown_checks = []
        self.concretised = []
        self.unsupported = []
        self.candidates = []
        self.witnesses = []
        self.cutoff = []
        self.forks = 0
        self.infeasible = 0
        self.incomplete = ""
        self.called = {}
        self.labels = {}


EXP_LIMIT = 700


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, prefix, work, stats: Stats, opts):
        self.prefix = prefix
        self.work = work
        self.st = stats
        self.opts = opts
        self.decisions = []
        self.inputs = {}  # name -> (kind, term, meta)
        self._cnt = {}
        self.solver = Z.Solver()
        self.qt = int(opts.get("query_ms", 8000))
        self.solver.set("timeout", self.qt)
        self.solver.set("random_seed", 1)
        self.facts = []
        self.model = None
        self.memo = {}
        self.graph = {}  # function name -> list of (arg term, value term)
        self.anchors = {}  # graph -> list of (arg Fraction, lo Fraction, hi Fraction)
        self.name_div = bool(opts.get("name_div", False))
        self.signs = bool(opts.get("signs", False))
        self.obs = []
        self.flags = set()
        self._patches = []
        self.rints = []
        self.deadline = opts.get("deadline")
        self._k = 0
        self.user = {}

    # ------------------------------------------------------------ solver access
    def add(self, t):
        self.facts.append(t)
        self.solver.add(t)

    def _check(self, *extra, fallback=True, timeout=None):
        """'sat' | 'unsat' | 'unknown' under the current path (+ extra)"""
        st = self.st
        t0 = time.time()
        st.queries += 1
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.qt)
        m = self.solver.model() if r == Z.sat else None
        if r == Z.unknown and fallback:
            r, m = self._fallback(extra, timeout or self.qt)
        st.solver_s += time.time() - t0
        if r == Z.sat:
            st.sat += 1
        elif r == Z.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        self._last = m
        return "sat" if r == Z.sat else "unsat" if r == Z.unsat else "unknown"

    def _fallback(self, extra, ms):
        for mk in (lambda: Z.Then("simplify", "solve-eqs", "qfnra-nlsat").solver(), lambda: Z.SolverFor("QF_NIRA"),
                   lambda: Z.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt").solver()):
            try:
                s = mk()
                s.set("timeout", ms)
                s.add(*self.facts)
                s.add(*extra)
                r = s.check()
                if r != Z.unknown:
                    return r, (s.model() if r == Z.sat else None)
            except Z.Z3Exception:
                continue
        return Z.unknown, None

    def _alive(self):
        """code under test may have swallowed the end of the path"""
        if self.flags and ("aborted" in self.flags or "unsupported" in self.flags):
            raise PathAbort("dead path")

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            self.st.incomplete = self.st.incomplete or "time limit"
            raise PathAbort("deadline")

    # ------------------------------------------------------------ branching
    def branch(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        self._alive()
        cond = Z.simplify(cond)
        if Z.is_true(cond):
            return True
        if Z.is_false(cond):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            if not isinstance(d, bool):
                self.st.unsupported.append("nondeterministic re-execution at " + _site())
                raise PathAbort("nondeterminism")
            self.decisions.append(d)
            self.add(cond if d else Z.Not(cond))
            self.model = None
            return d
        self._tick()
        if len(self.decisions) > self.opts.get("max_depth", 4000):
            self.st.incomplete = self.st.incomplete or "branch depth limit"
            raise PathAbort("depth")
        # which sides are feasible?
        sides = {}
        if self.model is None:
            r = self._check()
            if r == "unsat":
                self.st.infeasible += 1
                raise PathAbort("infeasible")
            self.model = self._last if r == "sat" else None
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if Z.is_true(v):
                sides[True] = self.model
            elif Z.is_false(v):
                sides[False] = self.model
        for d in (True, False):
            if d in sides:
                continue
            r = self._check(cond if d else Z.Not(cond))
            if r != "unsat":
                sides[d] = self._last if r == "sat" else None
        if not sides:
            self.st.infeasible += 1
            raise PathAbort("infeasible")
        if len(sides) == 2:
            self.st.forks += 1
            d = True
            self.work.append(self.decisions + [False])
        else:
            d = next(iter(sides))
        if len(sides) == 2 or True:
            self.decisions.append(d)
        self.add(cond if d else Z.Not(cond))
        self.model = sides[d]
        return d

    def fork_int(self, x):
        """enumerate the feasible values of an integer term by forking"""
        if not is_sym(x):
            return int(x)
        t = Z.simplify(to_int(x))
        if Z.is_int_value(t):
            return t.as_long()
        # already a decision for this term on this path?
        key = ("int", t.get_id())
        if key in self.memo:
            return self.memo[key][1]
        n = 0
        while True:
            n += 1
            if n > self.opts.get("max_int_fork", 64):
                self.st.incomplete = self.st.incomplete or "integer fork limit"
                raise PathAbort("int fork")
            k = len(self.decisions)
            if k < len(self.prefix):
                v = self.prefix[k]
                # integer decisions are stored as ("=", v) pairs
                if isinstance(v, tuple):
                    self.decisions.append(v)
                    op, val = v
                    if op == "=":
                        self.add(t == val)
                        self.model = None
                        self.memo[key] = (t, val)
                        return val
                    self.add(t != val)
                    self.model = None
                    continue
                self.st.unsupported.append("nondeterministic re-execution at " + _site())
                raise PathAbort("nondeterminism")
            self._tick()
            if self.model is None:
                r = self._check()
                if r == "unsat":
                    self.st.infeasible += 1
                    raise PathAbort("infeasible")
                self.model = self._last
            if self.model is None:
                self.st.unsupported.append("fork_int: unknown")
                raise PathAbort("unknown")
            val = self.model.eval(t, model_completion=True).as_long()
            # another value possible?
            r = self._check(t != val)
            if r != "unsat":
                self.st.forks += 1
                self.work.append(self.decisions + [("!", val)])
            self.decisions.append(("=", val))
            m = self.model
            self.add(t == val)
            self.model = m
            self.memo[key] = (t, val)
            return val

    def concretize(self, x):
        """give up generality: fix x to one feasible value (recorded as a cut)"""
        if not is_sym(x):
            return float(x)
        where = _site()
        self.st.concretised.append(where)
        self.flags.add("concretised")
        if self._check() == "unsat":
            raise PathAbort("infeasible")
        m = self._last
        if type(x) is SStr:
            v = m.eval(x.t, model_completion=True).as_string() if m is not None else ""
            self.add(x.t == Z.StringVal(v))
            self.model = m
            return v
        t = to_real(x)
        v = _num(m.eval(t, model_completion=True)) if m is not None else 0.0
        for cand in (float(round(v, 3)), float(v)):
            if self._check(t == rv(cand)) == "sat":
                self.model = self._last
                self.add(t == rv(cand))
                return cand
        raise PathAbort("concretise")

    # ------------------------------------------------------------ inputs
    def _new(self, name, kind, term, meta=None):
        base, n = name, 1
        if name in self.inputs:
            raise RuntimeError(f"duplicate symbolic input {name}")
        self.inputs[name] = (kind, term, meta)
        return term

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = self._new(name, "real", Z.Real(name))
        if lo is not None:
            self.add(t > to_real(lo) if lo_open else t >= to_real(lo))
        if hi is not None:
            self.add(t < to_real(hi) if hi_open else t <= to_real(hi))
        self.model = None
        return SReal(t)

    def int(self, name, lo=None, hi=None):
        t = self._new(name, "int", Z.Int(name))
        if lo is not None:
            self.add(t >= to_int(lo))
        if hi is not None:
            self.add(t <= to_int(hi))
        self.model = None
        return SInt(t)

    def bool(self, name):
        t = self._new(name, "bool", Z.Bool(name))
        return SBool(t)

    def choice(self, name, options):
        """one of finitely many options; a symbolic selector the exploration forks on"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        t = self._new(name, "choice", Z.Int(name), len(options))
        self.add(Z.And(t >= 0, t < len(options)))
        self.model = None
        return options[self.fork_int(SInt(t))]

    def str(self, name, maxlen=2, alphabet="ab"):
        t = self._new(name, "str", Z.String(name))
        rs = [Z.Re(c) for c in alphabet]
        u = Z.Union(*rs) if len(rs) > 1 else rs[0]
        self.add(Z.InRe(t, Z.Loop(u, 1, maxlen)))
        self.model = None
        return SStr(t)

    # ------------------------------------------------------------ properties
    def assume(self, cond):
        if not is_sym(cond):
            if not cond:
                raise PathAbort("assume")
            return
        t = to_bool(cond)
        self.add(t)
        if self.model is not None and Z.is_true(self.model.eval(t, model_completion=True)):
            return
        self.model = None
        if self._check() == "unsat":
            self.st.infeasible += 1
            raise PathAbort("assume")
        self.model = self._last

    def check(self, cond, label, prefer=None):
        st = self.st
        self._alive()
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if not is_sym(cond):
            if bool(cond):
                st.trivial += 1
                st.discharged += 1
                return
            self._candidate(label, [])
            raise PathAbort("violated")
        t = Z.simplify(to_bool(cond))
        nt = Z.Not(t)
        r = self._check(nt, timeout=self.opts.get("check_ms", self.qt))
        if r == "unsat":
            st.discharged += 1
            self.add(t)
            return
        if r == "unknown":
            st.unknown_checks.append(label)
            self.flags.add("unknown")
            return
        m = self._last
        extra = [nt]
        if prefer is not None and is_sym(prefer):
            if self._check(nt, to_bool(prefer)) == "sat":
                m = self._last
                extra = [nt, to_bool(prefer)]
        self._candidate(label, extra, m)
        self.model = None
        if self._check(t) == "unsat":
            raise PathAbort("violated")
        self.add(t)

    def check_le(self, a, b, label):
        if not is_sym(a) and not is_sym(b):
            return self.check(bool(a <= b), label)
        self.check(compare("<=", a, b), label, prefer=compare(">", a, sym._A("+", b, 0.05)))

    def check_near(self, a, b, label, tol=1e-6):
        if not is_sym(a) and not is_sym(b):
            return self.check(bool(abs(a - b) <= tol * (1 + abs(a) + abs(b))), label)
        # exact identity first (cheap); then with the tolerance
        d = sub(a, b)
        t = Z.simplify(to_real(d) == 0)
        if not Z.is_true(t):
            t2 = Z.simplify(to_real(d), som=True, som_blowup=100000)
            if Z.is_rational_value(t2) and t2.numerator_as_long() == 0:
                t = Z.BoolVal(True)
        if Z.is_true(t):
            self.st.checks += 1
            self.st.trivial += 1
            self.st.discharged += 1
            self.st.labels[label] = self.st.labels.get(label, 0) + 1
            return
        if self._check(Z.Not(t), timeout=self.opts.get("check_ms", self.qt)) == "unsat":
            self.st.checks += 1
            self.st.discharged += 1
            self.st.labels[label] = self.st.labels.get(label, 0) + 1
            return
        dd = self.abs(d)
        self.check(self.near(a, b, tol), label, prefer=compare(">", dd, 0.05 + 0.05 * self.abs(a)))

    def observe(self, name, value):
        self.obs.append((name, value))

    def fail(self, label):
        self.check(False, label)

    def reach(self, label):
        self.st.labels["reach:" + label] = self.st.labels.get("reach:" + label, 0) + 1

    # ------------------------------------------------------------ counterexamples
    def _candidate(self, label, extra, m=None, exc=None):
        n = sum(1 for c in self.st.candidates if c["label"] == label)
        if n >= self.opts.get("max_cand", 4):
            return
        vals = self.pinned(extra, m)
        if vals is None:
            self.st.unknown_checks.append(label + " (no model)")
            return
        self.st.candidates.append({"label": label, "inputs": vals, "exc": exc, "decisions": len(self.decisions)})

    def pinned(self, extra=(), m=None, budget=None):
        """a model of path+extra whose inputs are 'nice' floats where possible"""
        s = Z.Solver()
        s.set("timeout", 1500)
        s.add(*self.facts)
        s.add(*extra)
        if m is None:
            r = self._check(*extra)
            if r == "unsat":
                return None
            m = self._last
            if m is None:
                return None
        out = {}
        t_end = time.time() + (budget if budget is not None else self.opts.get("pin_s", 6.0))
        exact = True
        for name, (kind, t, meta) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind == "bool":
                out[name] = Z.is_true(v)
                s.add(t == v)
                continue
            if kind in ("int", "choice"):
                out[name] = v.as_long()
                s.add(t == v)
                continue
            if kind == "str":
                out[name] = v.as_string()
                s.add(t == v)
                continue
            x = _num(v)
            cands = []
            for q in (round(x), round(x * 2) / 2, round(x * 8) / 8, round(x, 2), round(x, 4)):
                q = float(q)
                if q not in cands:
                    cands.append(q)
            exactv = Z.is_rational_value(v) and Fraction(v.numerator_as_long(), v.denominator_as_long()) == Fraction(float(x))
            if float(x) not in cands:
                cands.append(float(x))
            done = False
            for q in cands:
                if time.time() > t_end:
                    break
                if q == float(x) and exactv:
                    s.add(t == rv(q))
                    out[name] = q
                    done = True
                    break
                s.push()
                s.add(t == rv(q))
                self.st.queries += 1
                if s.check() == Z.sat:
                    m = s.model()
                    s.pop()
                    s.add(t == rv(q))
                    out[name] = q
                    done = True
                    break
                s.pop()
            if not done:
                out[name] = float(x)
                exact = False
        out["__exact__"] = exact
        return out

    # ------------------------------------------------------------ functions
    def sqrt(self, x):
        if type(x) is Dual:
            return sym.fn1("sqrt", x)
        t = Z.simplify(to_real(x))
        key = ("sqrt", t.get_id())
        if key in self.memo:
            return self.memo[key][1]
        if self.branch(t < 0):
            raise DomainWarn("invalid value encountered in sqrt")
        # sqrt of a syntactic square: |a|
        s = Z.Real(f"$sqrt{len(self.memo)}")
        self.add(s >= 0)
        self.add(s * s == t)
        self.model = None
        out = SReal(s)
        self.memo[key] = (t, out)
        return out

    def div(self, x, y):
        """named quotient q with q*y == x (y != 0 is on the path)"""
        x, y = Z.simplify(x), Z.simplify(y)
        key = ("div", x.get_id(), y.get_id())
        if key in self.memo:
            return self.memo[key][2]
        q = Z.Real(f"$div{len(self.memo)}")
        self.add(q * y == x)
        self.model = None
        self.memo[key] = (x, y, q)
        return q

    _GRAPH = {"exp": ("exp", False), "log": ("exp", True), "pow10": ("pow10", False), "log10": ("pow10", True),
              "cdf": ("cdf", False), "pdf": ("pdf", False), "logcdf": ("logcdf", False)}

    def uf(self, name, x):
        if type(x) is Dual:
            return sym.fn1(name, x)
        if name not in self._GRAPH:
            raise Unsupported(f"function {name}")
        g, inv = self._GRAPH[name]
        t = Z.simplify(to_real(x), som=True) if g in ("cdf", "pdf", "exp") else Z.simplify(to_real(x))
        key = (name, t.get_id())
        if key in self.memo:
            return self.memo[key][1]
        # exp(log(y)) = y and log(exp(y)) = y syntactically
        for a, b in self.graph.get(g, ()):
            if not inv and Z.eq(a, t):
                out = SReal(b)
                self.memo[key] = (t, out)
                return out
            if inv and Z.eq(b, t):
                out = SReal(a)
                self.memo[key] = (t, out)
                return out
        if inv:
            if self.branch(t <= 0):
                raise DomainWarn(f"invalid value encountered in {name}")
        r = Z.Real(f"${name}{len(self.memo)}")
        a, b = (r, t) if inv else (t, r)
        self._axioms(g, a, b)
        self.graph.setdefault(g, []).append((a, b))
        self.model = None
        out = SReal(r)
        self.memo[key] = (t, out)
        return out

    def anchor(self, name, x, y):
        """a concrete application y = name(x) seen during execution"""
        if name not in self._GRAPH:
            return
        g, inv = self._GRAPH[name]
        a, b = (y, x) if inv else (x, y)
        if not (math.isfinite(a) and math.isfinite(b)):
            return
        import mpmath

        with mpmath.workdps(60):
            A = mpmath.mpf(float(a))
            if g == "exp":
                v = mpmath.exp(A)
            elif g == "pow10":
                v = mpmath.power(10, A)
            elif g == "cdf":
                v = mpmath.ncdf(A)
            elif g == "pdf":
                v = mpmath.npdf(A)
            else:
                return
            # rational enclosure of the true value
            e = abs(v) * mpmath.mpf(10) ** -40
            lo, hi = _mpfrac(v - e), _mpfrac(v + e)
        lst = self.anchors.setdefault(g, [])
        fa = Fraction(float(a))
        if any(p[0] == fa for p in lst):
            return
        lst.append((fa, lo, hi))
        for aa, bb in self.graph.get(g, ()):
            self._anchor_axiom(g, aa, bb, lst[-1])

    def _anchor_axiom(self, g, a, b, p):
        fa, lo, hi = p
        if g in ("exp", "pow10", "cdf"):
            self.add(Z.Implies(a >= rv(fa), b >= rv(lo)))
            self.add(Z.Implies(a <= rv(fa), b <= rv(hi)))
            self.model = None

    def _axioms(self, g, a, b):
        """instantiate facts about b = g(a); all are true of the real function"""
        if self.opts.get("uf_free"):  # no facts at all (over-approximation)
            return
        A = self.add
        old = self.graph.get(g, ())
        if g in ("exp", "pow10"):
            A(b > 0)
            A((a > 0) == (b > 1))
            A((a < 0) == (b < 1))
            if g == "exp":
                A(b >= 1 + a)
            for x, y in old:
                A((a < x) == (b < y))
                A((a == x) == (b == y))
                if self.opts.get("exp_mul"):
                    A((a + x <= 0) == (b * y <= 1))
                    A((a + x >= 0) == (b * y >= 1))
        elif g == "cdf":
            A(b > 0)
            A(b < 1)
            A((a > 0) == (b > Z.Q(1, 2)))
            A((a < 0) == (b < Z.Q(1, 2)))
            for x, y in old:
                A((a < x) == (b < y))
                A((a == x) == (b == y))
                A(Z.Implies(a == -x, b + y == 1))
            for x, y in self.graph.get("pdf", ()):
                if Z.eq(x, a):
                    self._mills(a, b, y)
        elif g == "pdf":
            A(b > 0)
            A(b <= rv(Fraction(3989422804014327, 10**16) + Fraction(1, 10**12)))
            for x, y in old:
                A(Z.Implies(a * a < x * x, b > y))
                A(Z.Implies(a * a > x * x, b < y))
                A(Z.Implies(a * a == x * x, b == y))
            for x, y in self.graph.get("cdf", ()):
                if Z.eq(x, a):
                    self._mills(a, y, b)
        elif g == "logcdf":
            A(b < 0)
            for x, y in old:
                A((a < x) == (b < y))
                A((a == x) == (b == y))
        for p in self.anchors.get(g, ()):
            self._anchor_axiom(g, a, b, p)

    def _mills(self, u, c, d):
        """G(u) = u*Phi(u) + phi(u) is positive and larger than u"""
        self.add(u * c + d > 0)
        self.add(u * c + d > u)

    def uf_pow(self, a, p):
        """a**(n/m) as the n-th power of the real m-th root"""
        f = Fraction(p).limit_denominator(16)
        if type(a) is Dual or abs(float(f) - p) > 1e-15:
            raise Unsupported(f"power {p}")
        t = Z.simplify(to_real(a))
        key = ("root", f.denominator, t.get_id())
        if key not in self.memo:
            if self.branch(t < 0):
                raise DomainWarn("invalid value encountered in power")
            r = Z.Real(f"$root{len(self.memo)}")
            q = r
            for _ in range(f.denominator - 1):
                q = q * r
            self.add(r >= 0)
            self.add(q == t)
            self.model = None
            self.memo[key] = (t, SReal(r))
        return sym.power(self.memo[key][1], f.numerator)


def _mpfrac(v):
    import mpmath

    s, man, exp, bc = mpmath.mpf(v)._mpf_
    f = Fraction(int(man)) * (Fraction(2) ** exp)
    return -f if s else f


def _num(v):
    if Z.is_int_value(v):
        return v.as_long()
    if Z.is_rational_value(v):
        try:
            return v.numerator_as_long() / v.denominator_as_long()
        except OverflowError:
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if Z.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0.0


def _site():
    for f in reversed(traceback.extract_stack()):
        if "/repo/" in f.filename:
            return f"{f.filename.split('/repo/')[-1]}:{f.lineno}"
    return "?"


class ReplayCtx(BaseCtx):
    """same API over concrete values"""

    def __init__(self, values, opts=None):
        self.values = values
        self.opts = opts or {}
        self._cnt = {}
        self.failures = []
        self.obs = []
        self.missing = []
        self._patches = []
        self.assumed = True
        self.labels = {}
        self.user = {}
        self.used = set()

    def _get(self, name, default):
        self.used.add(name)
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        d = 0.5
        lo_, hi_ = (None if lo is None else float(lo)), (None if hi is None else float(hi))
        if lo_ is not None and hi_ is not None:
            d = lo_ + 0.53125 * (hi_ - lo_)
        elif lo_ is not None:
            d = lo_ + 1.0
        elif hi_ is not None:
            d = hi_ - 1.0
        v = float(self._get(name, d))
        # floats that stand for irrational model values may leave the range by rounding
        if lo_ is not None and (v < lo_ or (lo_open and v <= lo_)):
            v = lo_ if not lo_open else float(np.nextafter(lo_, np.inf))
        if hi_ is not None and (v > hi_ or (hi_open and v >= hi_)):
            v = hi_ if not hi_open else float(np.nextafter(hi_, -np.inf))
        return v

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo if lo is not None else (hi if hi is not None else 0)))
        if lo is not None:
            v = max(v, int(lo))
        if hi is not None:
            v = min(v, int(hi))
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[min(int(self._get(name, 0)), len(options) - 1)]

    def str(self, name, maxlen=2, alphabet="ab"):
        return str(self._get(name, alphabet[0]))

    def assume(self, cond):
        if not cond:
            raise Assume()

    def check(self, cond, label, prefer=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(cond):
            self.failures.append(label)

    def check_le(self, a, b, label):
        self.check(bool(a <= b), label)

    def check_near(self, a, b, label, tol=1e-6):
        self.check(bool(abs(a - b) <= tol * (1 + abs(a) + abs(b))), label)

    def observe(self, name, value):
        self.obs.append((name, value))

    def fail(self, label):
        self.check(False, label)

    def reach(self, label):
        pass

    def branch(self, c):
        return bool(c)
