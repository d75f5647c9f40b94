"""Path exploration of one harness case (symbolic process) and concrete replay (replay process)."""
from __future__ import annotations

import gc
import os
import sys
import time
import traceback

import numpy as np

from . import sym
from .ctx import Assume, ReplayCtx, Stats, SymCtx, _num
from .sym import PathAbort, Unsupported, Z, is_sym

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


def _where(e):
    """(innermost frame is harness?, innermost /repo frame)"""
    tb = traceback.extract_tb(e.__traceback__)
    site = ""
    inner = ""
    for f in tb:
        if f.filename.startswith(REPO + "/"):
            site = f"{f.filename[len(REPO) + 1:]}:{f.name}"
        if "/verif/engine/" not in f.filename and not f.filename.startswith(os.path.dirname(__file__)):
            inner = f.filename
    return inner.startswith(HARNESS), site


def _result_error(e):
    """an error raised in harness code because a value the code returned or passed has the wrong form (a candidate
    violation), as opposed to a private name of the code that the harness relies on and that is not there"""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        t = o if isinstance(o, type) else type(o)
        return o is not None and getattr(t, "__module__", "") in ("builtins", "numpy") and not hasattr(o, "__path__") and t.__name__ != "module"
    return isinstance(e, (TypeError, ValueError, IndexError, KeyError))


_FUNCS = set()


def trace_functions():
    """record which functions of /repo are entered (sys.monitoring, one event per function)"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "verif")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO + "/") and sym._cur is not None:
            _FUNCS.add(f"{code.co_filename[len(REPO) + 1:]}:{code.co_qualname}")
            return mon.DISABLE
        if not code.co_filename.startswith(REPO + "/"):
            return mon.DISABLE
        return None

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def _ev(ctx, m, v):
    """value of an observation under a model"""
    if is_sym(v):
        if type(v) is sym.Dual:
            return _ev(ctx, m, v.v)
        t = m.eval(v.t, model_completion=True)
        if type(v) is sym.SBool:
            return Z.is_true(t)
        if type(v) is sym.SStr:
            return t.as_string()
        return _num(t)
    if isinstance(v, np.ndarray):
        return [_ev(ctx, m, x) for x in v.tolist()] if v.dtype != object else [_ev(ctx, m, x) for x in _aslist(v)]
    if isinstance(v, (list, tuple)):
        return [_ev(ctx, m, x) for x in v]
    if isinstance(v, dict):
        return {str(k): _ev(ctx, m, x) for k, x in v.items()}
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    return repr(type(v).__name__)


def _aslist(a):
    if a.shape == ():
        return a[()]
    return [a[i] if not isinstance(a[i], np.ndarray) else a[i] for i in range(len(a))]


def plain(v):
    return _ev(None, None, v)


def same(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return (a != a) == (b != b)
        return a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b))
    return a == b


def explore(case, deadline):
    """DFS over the decision tree of case.fn; returns Stats"""
    st = Stats()
    opts = dict(case.opts)
    opts["deadline"] = deadline
    t0 = time.time()
    work = [[]]
    max_paths = opts.get("max_paths", 20000)
    max_wit = opts.get("witnesses", 8)
    while work:
        if time.time() > deadline:
            st.incomplete = st.incomplete or "time limit"
            break
        if st.paths >= max_paths:
            st.incomplete = st.incomplete or "path limit"
            break
        prefix = work.pop()
        ctx = SymCtx(prefix, work, st, opts)
        sym.set_cur(ctx)
        done = False
        try:
            np.random.seed(0) if False else None
            case.fn(ctx)
            done = True
        except PathAbort:
            pass
        except Unsupported as e:
            pass
        except Assume:
            pass
        except RecursionError as e:
            st.unsupported.append("recursion")
        except Exception as e:
            if "unsupported" in ctx.flags or "aborted" in ctx.flags:
                pass
            else:
                h, site = _where(e)
                label = f"exception {type(e).__name__} @ {site}"
                if h and not _result_error(e):
                    st.unsupported.append(f"harness error {type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
                else:
                    try:
                        ctx._candidate(label, [], exc=f"{type(e).__name__}: {str(e)[:200]}")
                    except (PathAbort, Z.Z3Exception):
                        pass
                    st.paths += 1
        if done and "aborted" not in ctx.flags and "unsupported" not in ctx.flags:
            st.paths += 1
            if len(st.witnesses) < max_wit or (st.paths & (st.paths - 1)) == 0:
                try:
                    sym.set_cur(ctx)
                    if time.time() < deadline:
                        vals = ctx.pinned(budget=opts.get("wit_s", 2.0))
                        if vals is not None:
                            obs = None if ctx.graph else (_obs(ctx, vals) if ctx.obs else [])
                            st.witnesses.append({"inputs": vals, "obs": obs})
                except (PathAbort, Z.Z3Exception):
                    pass
        elif "unsupported" in ctx.flags and len(st.cutoff) < max_wit:
            # the path left the encodable fragment: at least run the code on one input of that path
            try:
                ctx.flags.clear()
                vals = ctx.pinned(budget=opts.get("wit_s", 2.0)) if time.time() < deadline else None
                if vals is not None:
                    st.cutoff.append({"inputs": vals, "obs": None})
            except (PathAbort, Z.Z3Exception):
                pass
        ctx.unpatch()
        sym.set_cur(None)
        ctx.solver = None
        del ctx
        if st.paths % 50 == 0:
            gc.collect()
    st.witnesses += st.cutoff
    st.wall = time.time() - t0
    st.pending = len(work)
    st.functions = sorted(_FUNCS)
    return st


def _obs(ctx, vals):
    s = Z.Solver()
    s.set("timeout", 2000)
    s.add(*ctx.facts)
    for n, (kind, t, meta) in ctx.inputs.items():
        if n not in vals:
            continue
        v = vals[n]
        if kind == "real":
            s.add(t == sym.rv(v))
        elif kind in ("int", "choice"):
            s.add(t == v)
        elif kind == "bool":
            s.add(t if v else Z.Not(t))
        elif kind == "str":
            s.add(t == Z.StringVal(v))
    if s.check() != Z.sat:
        return None
    m = s.model()
    out = []
    for n, v in ctx.obs:
        try:
            out.append((n, _ev(ctx, m, v)))
        except Exception:
            out.append((n, None))
    return out


def replay(case, values):
    """run case.fn on concrete values against the un-instrumented code"""
    ctx = ReplayCtx(dict(values), case.opts)
    sym.set_cur(ctx)
    exc = None
    harness = False
    site = ""
    assumed = True
    try:
        case.fn(ctx)
    except Assume:
        assumed = False
    except Exception as e:
        harness, site = _where(e)
        harness = harness and not _result_error(e)
        exc = f"{type(e).__name__}: {str(e)[:300]} @ {site}"
        if os.environ.get("VERIF_TB"):
            traceback.print_exc(file=sys.stderr)
    finally:
        ctx.unpatch()
        sym.set_cur(None)
    obs = []
    for n, v in ctx.obs:
        try:
            obs.append((n, plain(v)))
        except Exception:
            obs.append((n, None))
    return {"failures": ctx.failures, "exc": exc, "exc_harness": harness, "obs": obs, "missing": ctx.missing, "assumed": assumed,
            "labels": ctx.labels}
