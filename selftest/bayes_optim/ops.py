"""Numpy/builtin expressions evaluated by the engine and by the real interpreter on the same values.

a, b: vectors of 3 reals; A: 2x3 and S: 2x2 real matrices; s, t: reals; n: integer in 1..3; p: positive vector."""
import functools
import itertools
import math
import operator
from copy import copy, deepcopy

import numpy as np
import scipy.linalg


def _loop_min(a):
    best = None
    for i, v in enumerate(a):
        if best is None or v < a[best]:
            best = i
    return best


def _walrus(a):
    out = []
    for v in a:
        if (w := v * 2) > 0:
            out.append(w)
    return out


def _setmask(a):
    a = a.copy()
    a[a < 0] = 0
    return a


def _setmask2(a, b):
    a = a.copy()
    m = a < b
    a[m] = b[m]
    return a


def _inpl(a):
    a = a.copy()
    a += 1
    a *= 2
    a -= a.min()
    return a


def _out(a, b):
    o = np.empty(3)
    np.add(a, b, out=o)
    return o


def _maxout(a, b):
    o = a.copy()
    np.maximum(o, b, out=o)
    return o


def _copyto(a, b):
    o = a.copy()
    np.copyto(o, b, where=a < 0)
    return o


def _putmask(a):
    o = a.copy()
    np.putmask(o, o < 0, 0.0)
    return o


def _place(a):
    o = a.copy()
    np.place(o, o < 0, [7.0])
    return o


def _filldiag(S):
    o = S.copy()
    np.fill_diagonal(o, 1.0)
    return o


def _matchs(n):
    match int(n):
        case 1:
            return 10
        case 2:
            return 20
        case _:
            return 30


def _swap(a):
    a = list(a)
    a[0], a[1] = a[1], a[0]
    return a


def _swaparr(a):
    a = a.copy()
    a[[0, 1]] = a[[1, 0]]
    return a


def _while(a):
    i = 0
    while i < len(a) and a[i] <= 0:
        i += 1
    return i


def _tryexc(a):
    try:
        return [v for v in a if v > 0][0]
    except IndexError:
        return -1.0


def _gen(a):
    def g():
        for v in a:
            yield v + 1
    return list(g())


def _forelse(a):
    for v in a:
        if v > 1:
            break
    else:
        return 0
    return 1


def _rowmask(A):
    return A[(A > 0).all(axis=1)]


def _rowset(A):
    A = A.copy()
    A[:, 0] = A[:, 1]
    A[0, :] += 1
    A[A.sum(axis=1) > 0] = 0
    return A


def _dictmin(a):
    d = {"x": a[0], "y": a[1], "z": a[2]}
    return min(d, key=d.get)


def _dictsort(a):
    d = {"x": a[0], "y": a[1], "z": a[2]}
    return [k for k, _ in sorted(d.items(), key=lambda kv: kv[1])]


def _insertsort(a):
    out = []
    for v in a:
        k = 0
        while k < len(out) and out[k] < v:
            k += 1
        out.insert(k, v)
    return out


def _setadd(a):
    s = set()
    for i, v in enumerate(a):
        if v > 0:
            s.add(i)
    return sorted(s)


def _chain(a, s):
    return [0 < v < s for v in a]


def _mset(a):
    b = a.tolist()
    b.sort()
    return b


def _accum(a):
    return list(itertools.accumulate(a))


def _nditer(A):
    return [A[i] for i in np.ndindex(*A.shape)]


def _enum(A):
    return [(i, v) for i, v in np.ndenumerate(A)]


def _clip_loop(a, lo, hi):
    r = np.empty(len(a))
    for i in range(len(a)):
        v = a[i]
        r[i] = lo if v < lo else hi if v > hi else v
    return r


def _errstate(a):
    with np.errstate(all="ignore"):
        return a / (1 + a ** 2)


def _subat(a):
    a = a.copy()
    np.add.at(a, [0, 0], 1.0)
    return a


def _dellist(a):
    a = list(a)
    del a[int(a[0] > 0)]
    return a


def _poplist(a):
    a = list(a)
    a.pop(1)
    return a


def _ext(a, b):
    r = []
    r += list(a)
    r.extend(b)
    return r


def _rem(a):
    r = list(a)
    r.remove(max(r))
    return r


OPS = {
    "where3": lambda v: np.where(v.a > 0, v.a, v.b),
    "where1": lambda v: np.where(v.a > 0)[0],
    "where_scalar": lambda v: np.where(v.a > v.s, 1.0, v.s),
    "nonzero": lambda v: np.nonzero(v.a > 0)[0],
    "m_nonzero": lambda v: (v.a > 0).nonzero()[0],
    "flatnonzero": lambda v: np.flatnonzero(v.a > 0),
    "argwhere": lambda v: np.argwhere(v.a > 0),
    "count_nonzero": lambda v: np.count_nonzero(v.a > 0),
    "bool_sum": lambda v: (v.a > 0).sum(),
    "np_sum_bool": lambda v: np.sum(v.a > 0),
    "sum_bool": lambda v: sum(v.a > 0),
    "sum_gen": lambda v: sum(x > 0 for x in v.a),
    "sum_one": lambda v: sum(1 for x in v.a if x > 0),
    "clip": lambda v: np.clip(v.a, -1, 1),
    "m_clip": lambda v: v.a.clip(-1, 1),
    "clip_vec": lambda v: np.clip(v.a, np.minimum(v.b, 0), 1),
    "clip_kw": lambda v: np.clip(v.a, a_min=-1, a_max=None),
    "minimum": lambda v: np.minimum(v.a, v.b),
    "maximum": lambda v: np.maximum(v.a, 0),
    "fmin": lambda v: np.fmin(v.a, v.b),
    "fmax": lambda v: np.fmax(v.a, v.b),
    "min_red": lambda v: np.minimum.reduce(v.a),
    "max_red": lambda v: np.maximum.reduce(v.A, axis=0),
    "add_red": lambda v: np.add.reduce(v.a),
    "and_red": lambda v: np.logical_and.reduce(v.a > 0),
    "or_red": lambda v: np.logical_or.reduce(v.A > 0, axis=1),
    "min_acc": lambda v: np.minimum.accumulate(v.a),
    "max_acc": lambda v: np.maximum.accumulate(v.a),
    "amin": lambda v: np.amin(v.A, axis=1),
    "amax": lambda v: np.amax(v.A, axis=0),
    "m_min": lambda v: v.A.min(axis=0),
    "m_max": lambda v: v.A.max(),
    "min_keep": lambda v: v.A.min(axis=1, keepdims=True),
    "nanmin": lambda v: np.nanmin(v.a),
    "nanmax": lambda v: np.nanmax(v.a),
    "nanargmin": lambda v: np.nanargmin(v.a),
    "nanmean": lambda v: np.nanmean(v.a),
    "nansum": lambda v: np.nansum(v.a),
    "ptp": lambda v: np.ptp(v.a),
    "m_ptp": lambda v: v.a.ptp(),
    "bi_min": lambda v: min(v.a),
    "bi_max": lambda v: max(v.a),
    "bi_min2": lambda v: min(v.s, v.t),
    "bi_max_default": lambda v: max([x for x in v.a if x > 0], default=0.0),
    "bi_min_key": lambda v: min(range(3), key=lambda i: v.a[i]),
    "bi_max_key": lambda v: max(v.a, key=lambda x: -x),
    "bi_min_gen": lambda v: min(x * 2 for x in v.a),
    "bi_abs": lambda v: abs(v.s),
    "np_abs": lambda v: np.abs(v.a),
    "absolute": lambda v: np.absolute(v.a),
    "fabs": lambda v: np.fabs(v.a),
    "math_fabs": lambda v: math.fabs(v.s),
    "sign": lambda v: np.sign(v.a),
    "copysign": lambda v: math.copysign(1.0, v.s - 100),
    "sqrt": lambda v: np.sqrt(v.p),
    "math_sqrt": lambda v: math.sqrt(v.p[0]),
    "pow_half": lambda v: v.p ** 0.5,
    "square": lambda v: np.square(v.a),
    "power": lambda v: np.power(v.a, 2),
    "math_pow": lambda v: math.pow(v.s, 2),
    "bi_pow": lambda v: pow(v.s, 2),
    "hypot": lambda v: np.hypot(v.s, v.t),
    "reciprocal": lambda v: np.reciprocal(v.p),
    "divide": lambda v: np.divide(v.a, v.p),
    "true_divide": lambda v: np.true_divide(v.a, v.p),
    "multiply": lambda v: np.multiply(v.a, v.b),
    "subtract": lambda v: np.subtract(v.a, v.b),
    "add": lambda v: np.add(v.a, v.b),
    "negative": lambda v: np.negative(v.a),
    "op_neg": lambda v: operator.neg(v.s),
    "op_lt": lambda v: operator.lt(v.s, v.t),
    "floor": lambda v: np.floor(v.a),
    "ceil": lambda v: np.ceil(v.a),
    "rint": lambda v: np.rint(v.a * 3),
    "np_round": lambda v: np.round(v.a * 3),
    "np_around": lambda v: np.around(v.a * 3),
    "round_dec": lambda v: np.round(v.a * 3, 1),
    "bi_round": lambda v: round(v.s),
    "bi_round2": lambda v: round(v.s, 1),
    "m_round": lambda v: (v.a * 3).round(),
    "trunc": lambda v: np.trunc(v.a * 3),
    "math_floor": lambda v: math.floor(v.s),
    "math_ceil": lambda v: math.ceil(v.s),
    "math_trunc": lambda v: math.trunc(v.s),
    "int_of": lambda v: int(v.s * 3),
    "astype_int": lambda v: (v.a * 3).astype(int),
    "floordiv": lambda v: v.s // 2,
    "mod": lambda v: v.s % 2,
    "np_mod": lambda v: np.mod(v.a, 2),
    "divmod": lambda v: divmod(v.n, 2),
    "mod_vec": lambda v: v.a % 2,
    "floor_divide": lambda v: np.floor_divide(v.a, 2),
    "n_mod": lambda v: v.n % 2,
    "range_n": lambda v: list(range(v.n)),
    "index_n": lambda v: v.a[v.n - 1],
    "slice_n": lambda v: v.a[: v.n],
    "list_slice_n": lambda v: list(v.a)[: v.n],
    "list_mul_n": lambda v: [0] * v.n,
    "zeros_n": lambda v: np.zeros(v.n),
    "arange_n": lambda v: np.arange(v.n),
    "linspace": lambda v: np.linspace(v.s, v.t, 3),
    "sum": lambda v: np.sum(v.a),
    "sum_ax": lambda v: np.sum(v.A, axis=0),
    "m_sum": lambda v: v.A.sum(axis=1),
    "mean": lambda v: np.mean(v.a),
    "average": lambda v: np.average(v.a),
    "average_w": lambda v: np.average(v.a, weights=v.p),
    "median": lambda v: np.median(v.a),
    "std": lambda v: np.std(v.a),
    "var": lambda v: np.var(v.a),
    "std1": lambda v: np.std(v.a, ddof=1),
    "percentile": lambda v: np.percentile(v.a, 50),
    "quantile": lambda v: np.quantile(v.a, 0.25),
    "prod": lambda v: np.prod(v.a),
    "math_prod": lambda v: math.prod(v.a),
    "fsum": lambda v: math.fsum(v.a),
    "cumsum": lambda v: np.cumsum(v.a),
    "cumprod": lambda v: np.cumprod(v.a),
    "diff": lambda v: np.diff(v.a),
    "dot": lambda v: np.dot(v.a, v.b),
    "m_dot": lambda v: v.A.dot(v.a),
    "matmul": lambda v: v.A @ v.a,
    "inner": lambda v: np.inner(v.a, v.b),
    "vdot": lambda v: np.vdot(v.a, v.b),
    "outer": lambda v: np.outer(v.a, v.b),
    "einsum1": lambda v: np.einsum("i,i->", v.a, v.b),
    "einsum2": lambda v: np.einsum("ij,j->i", v.A, v.a),
    "tensordot": lambda v: np.tensordot(v.A, v.a, axes=1),
    "norm": lambda v: np.linalg.norm(v.a),
    "norm_ax": lambda v: np.linalg.norm(v.A, axis=1),
    "norm1": lambda v: np.linalg.norm(v.a, 1),
    "norminf": lambda v: np.linalg.norm(v.a, np.inf),
    "trace": lambda v: np.trace(v.S),
    "det": lambda v: np.linalg.det(v.S),
    "multi_dot": lambda v: np.linalg.multi_dot([v.S, v.S, v.S]),
    "mat_power": lambda v: np.linalg.matrix_power(v.S, 2),
    "diag": lambda v: np.diag(v.S),
    "diag_mk": lambda v: np.diag(v.a),
    "triu": lambda v: np.triu(v.S),
    "kron": lambda v: np.kron(v.a, v.b[:2]),
    "T": lambda v: v.A.T,
    "transpose": lambda v: np.transpose(v.A),
    "reshape": lambda v: v.A.reshape(-1),
    "reshape2": lambda v: np.reshape(v.a, (-1, 1)),
    "ravel": lambda v: np.ravel(v.A),
    "flatten": lambda v: v.A.flatten(),
    "newaxis": lambda v: v.a[None, :] - v.b[:, None],
    "squeeze": lambda v: np.squeeze(v.a[None]),
    "expand": lambda v: np.expand_dims(v.a, 0),
    "atleast_2d": lambda v: np.atleast_2d(v.a),
    "concatenate": lambda v: np.concatenate([v.a, v.b]),
    "concat_ax": lambda v: np.concatenate((v.A, v.A), axis=1),
    "vstack": lambda v: np.vstack([v.a, v.b]),
    "hstack": lambda v: np.hstack([v.a, v.s]),
    "r_": lambda v: np.r_[v.a, v.b],
    "c_": lambda v: np.c_[v.a, v.b],
    "stack": lambda v: np.stack([v.a, v.b]),
    "column_stack": lambda v: np.column_stack([v.a, v.b]),
    "append": lambda v: np.append(v.a, v.s),
    "insert": lambda v: np.insert(v.a, 1, v.s),
    "delete": lambda v: np.delete(v.a, 1),
    "tile": lambda v: np.tile(v.a, (2, 1)),
    "repeat": lambda v: np.repeat(v.a, 2),
    "roll": lambda v: np.roll(v.a, 1),
    "flip": lambda v: np.flip(v.a),
    "rev": lambda v: v.a[::-1],
    "take": lambda v: np.take(v.a, [2, 0]),
    "m_take": lambda v: v.a.take([2, 0]),
    "compress": lambda v: np.compress(v.a > 0, v.b),
    "extract": lambda v: np.extract(v.a > 0, v.b),
    "choose": lambda v: np.choose((v.a > 0).astype(int), [v.a, v.b]),
    "select": lambda v: np.select([v.a > 1, v.a > 0], [v.a, v.b], 0.0),
    "piecewise": lambda v: np.piecewise(v.a, [v.a < 0, v.a >= 0], [lambda x: -x, lambda x: x]),
    "heaviside": lambda v: np.heaviside(v.a, 0.5),
    "mask": lambda v: v.a[v.a > 0],
    "mask2": lambda v: v.b[(v.a > 0) & (v.b < 1)],
    "mask_inv": lambda v: v.a[~(v.a > 0)],
    "mask_or": lambda v: v.a[(v.a > 0) | (v.b > 0)],
    "mask_xor": lambda v: ((v.a > 0) ^ (v.b > 0)),
    "row_mask": lambda v: _rowmask(v.A),
    "row_set": lambda v: _rowset(v.A),
    "logical_and": lambda v: np.logical_and(v.a > 0, v.b > 0),
    "logical_or": lambda v: np.logical_or(v.a > 0, v.b > 0),
    "logical_not": lambda v: np.logical_not(v.a > 0),
    "logical_xor": lambda v: np.logical_xor(v.a > 0, v.b > 0),
    "invert": lambda v: np.invert(v.a > 0),
    "bitwise_and": lambda v: np.bitwise_and(v.a > 0, v.b > 0),
    "all": lambda v: np.all(v.a > 0),
    "any": lambda v: np.any(v.a > 0),
    "all_ax": lambda v: np.all(v.A > 0, axis=1),
    "any_ax": lambda v: (v.A > 0).any(axis=0),
    "bi_all": lambda v: all(v.a > 0),
    "bi_any": lambda v: any(v.a > 0),
    "bi_all_gen": lambda v: all(x > 0 for x in v.a),
    "bi_any_gen": lambda v: any(x <= y for x, y in zip(v.a, v.b)),
    "not_any": lambda v: not np.any(v.a > 0),
    "greater": lambda v: np.greater(v.a, v.b),
    "less_equal": lambda v: np.less_equal(v.a, v.b),
    "equal": lambda v: np.equal(v.a, v.b),
    "not_equal": lambda v: np.not_equal(v.a, v.b),
    "eq_op": lambda v: v.a == v.b,
    "array_equal": lambda v: np.array_equal(v.a, v.b),
    "isclose": lambda v: np.isclose(v.s, v.t),
    "math_isclose": lambda v: math.isclose(v.s, v.t),
    "allclose": lambda v: np.allclose(v.a, v.b),
    "isfinite": lambda v: np.isfinite(v.a),
    "isnan": lambda v: np.isnan(v.a),
    "isinf": lambda v: np.isinf(v.a),
    "math_isnan": lambda v: math.isnan(v.s),
    "math_isinf": lambda v: math.isinf(v.s),
    "math_isfinite": lambda v: math.isfinite(v.s),
    "nan_to_num": lambda v: np.nan_to_num(v.a),
    "isscalar": lambda v: np.isscalar(v.s),
    "float": lambda v: float(v.s),
    "np_float64": lambda v: np.float64(v.s),
    "bool": lambda v: bool(v.n),
    "isinstance_float": lambda v: isinstance(v.s, float),
    "isinstance_int": lambda v: isinstance(v.n, int),
    "argsort": lambda v: np.argsort(v.a),
    "argsort_desc": lambda v: np.argsort(-v.a),
    "argsort_rev": lambda v: np.argsort(v.a)[::-1],
    "argsort_stable": lambda v: np.argsort(v.a, kind="stable"),
    "m_argsort": lambda v: v.a.argsort(),
    "sort": lambda v: np.sort(v.a),
    "sort_ax": lambda v: np.sort(v.A, axis=1),
    "bi_sorted": lambda v: sorted(v.a),
    "bi_sorted_rev": lambda v: sorted(v.a, reverse=True),
    "bi_sorted_key": lambda v: sorted(range(3), key=lambda i: v.a[i]),
    "bi_sorted_getitem": lambda v: sorted(range(3), key=v.a.__getitem__),
    "bi_sorted_pairs": lambda v: [i for _, i in sorted((x, i) for i, x in enumerate(v.a))],
    "bi_sorted_cmp": lambda v: sorted(v.a, key=functools.cmp_to_key(lambda x, y: -1 if x < y else (1 if x > y else 0))),
    "list_sort": lambda v: _mset(v.a),
    "lexsort": lambda v: np.lexsort((v.b, v.a)),
    "argmin": lambda v: np.argmin(v.a),
    "m_argmax": lambda v: v.a.argmax(),
    "argmin_ax": lambda v: np.argmin(v.A, axis=1),
    "argmax_bool": lambda v: np.argmax(v.a > 0),
    "argpartition": lambda v: np.sort(v.a[np.argpartition(v.a, 1)[:2]]),
    "partition": lambda v: np.partition(v.a, 1)[1],
    "unique": lambda v: np.unique(v.a),
    "in1d": lambda v: np.in1d(v.a, v.b),
    "isin": lambda v: np.isin(v.a, v.b),
    "setdiff": lambda v: np.setdiff1d(np.arange(3), np.nonzero(v.a > 0)[0]),
    "union1d": lambda v: np.union1d(v.a, v.b[:1]),
    "searchsorted": lambda v: np.searchsorted(np.sort(v.a), v.s),
    "digitize": lambda v: np.digitize(v.s, np.array([-1.0, 0.0, 1.0])),
    "meshgrid": lambda v: np.meshgrid(v.a, v.b)[0],
    "broadcast_to": lambda v: np.broadcast_to(v.a, (2, 3)),
    "array": lambda v: np.array([v.s, v.t]),
    "array2": lambda v: np.array([[v.s, 1], [v.t, 2]], dtype=float),
    "asarray": lambda v: np.asarray([v.s, v.t]) * 2,
    "fromiter": lambda v: np.fromiter((x + 1 for x in v.a), dtype=float),
    "full": lambda v: np.full(3, v.s),
    "full_like": lambda v: np.full_like(v.a, v.s),
    "zeros_like": lambda v: np.zeros_like(v.a) + v.s,
    "ones_like": lambda v: np.ones_like(v.a) * v.s,
    "empty_fill": lambda v: _clip_loop(v.a, -1, 1),
    "copy": lambda v: np.copy(v.a) + 1,
    "copycopy": lambda v: copy(v.a) + 1,
    "deepcopy": lambda v: deepcopy(v.a) + 1,
    "tolist": lambda v: v.a.tolist(),
    "item": lambda v: v.a[:1].item(),
    "list": lambda v: list(v.a),
    "tuple": lambda v: tuple(v.a),
    "unpack": lambda v: [*v.a, v.s],
    "map": lambda v: list(map(lambda x: x + 1, v.a)),
    "filter": lambda v: list(filter(lambda x: x > 0, v.a)),
    "zip": lambda v: [x - y for x, y in zip(v.a, v.b)],
    "reduce": lambda v: functools.reduce(lambda x, y: x if x < y else y, v.a),
    "accumulate": lambda v: _accum(v.a),
    "itemgetter": lambda v: operator.itemgetter(2, 0)(v.a),
    "compress_it": lambda v: list(itertools.compress(v.b, v.a > 0)),
    "takewhile": lambda v: list(itertools.takewhile(lambda x: x > 0, v.a)),
    "next_gen": lambda v: next((i for i, x in enumerate(v.a) if x > 0), -1),
    "reversed": lambda v: list(reversed(v.a)),
    "vectorize": lambda v: np.vectorize(lambda x: x + 1)(v.a),
    "apply_along": lambda v: np.apply_along_axis(lambda r: r.sum(), 1, v.A),
    "frompyfunc": lambda v: np.frompyfunc(lambda x: x + 1, 1, 1)(v.a),
    "exp": lambda v: np.exp(v.a * 0),
    "exp_neg": lambda v: np.exp(v.a) > 0,
    "log_mono": lambda v: np.log(v.p) < np.log(v.p + 1),
    "math_exp": lambda v: math.exp(v.s) > 0,
    "math_log": lambda v: math.log(v.p[0] + 1) > 0,
    "solve": lambda v: np.linalg.solve(np.array([[2.0, 1.0], [1.0, 3.0]]), v.a[:2]),
    "inv": lambda v: np.linalg.inv(np.array([[2.0, 1.0], [1.0, 3.0]])) @ v.a[:2],
    "spsolve": lambda v: scipy.linalg.solve(np.array([[2.0, 1.0], [1.0, 3.0]]), v.a[:2]),
    "cov": lambda v: float(np.cov(v.a)),
    "cov2": lambda v: np.cov(v.A),
    "mean_ax": lambda v: v.A.mean(axis=0),
    "center": lambda v: v.A - v.A.mean(axis=0),
    "std_kd": lambda v: v.A - v.A.mean(axis=1, keepdims=True),
    "loop_min": lambda v: _loop_min(v.a),
    "walrus": lambda v: _walrus(v.a),
    "setmask": lambda v: _setmask(v.a),
    "setmask2": lambda v: _setmask2(v.a, v.b),
    "inplace": lambda v: _inpl(v.a),
    "out": lambda v: _out(v.a, v.b),
    "maxout": lambda v: _maxout(v.a, v.b),
    "copyto": lambda v: _copyto(v.a, v.b),
    "putmask": lambda v: _putmask(v.a),
    "place": lambda v: _place(v.a),
    "filldiag": lambda v: _filldiag(v.S),
    "match": lambda v: _matchs(v.n),
    "swap": lambda v: _swap(v.a),
    "swaparr": lambda v: _swaparr(v.a),
    "while": lambda v: _while(v.a),
    "tryexc": lambda v: _tryexc(v.a),
    "gen": lambda v: _gen(v.a),
    "forelse": lambda v: _forelse(v.a),
    "dictmin": lambda v: _dictmin(v.a),
    "dictsort": lambda v: _dictsort(v.a),
    "insertsort": lambda v: _insertsort(v.a),
    "setadd": lambda v: _setadd(v.a),
    "chain": lambda v: _chain(v.a, v.s),
    "ndindex": lambda v: _nditer(v.A),
    "ndenumerate": lambda v: _enum(v.A),
    "errstate": lambda v: _errstate(v.a),
    "ternary": lambda v: v.s if v.s > v.t else v.t,
    "bool_idx": lambda v: [v.s, v.t][int(v.s > v.t)],
    "bool_idx2": lambda v: (v.s, v.t)[v.s > v.t],
    "bool_mul": lambda v: (v.a > 0) * v.b,
    "bool_mul2": lambda v: v.s * (v.t > 0),
    "cmp_count": lambda v: [sum(y < x for y in v.a) for x in v.a],
    "in_list": lambda v: v.n in [1, 3],
    "in_set": lambda v: v.n in {1, 3},
    "dict_key": lambda v: {1: 10, 2: 20, 3: 30}[v.n],
    "dict_get": lambda v: {1: 10, 2: 20}.get(v.n, -1),
    
    "complex_and": lambda v: (v.s > 0 and v.t > 0) or v.s > v.t,
    "ellipsis": lambda v: v.A[..., 0],
    "fancy2": lambda v: v.A[[0, 1], [2, 0]],
    "ix": lambda v: v.A[np.ix_([0, 1], [0, 2])],
    "argsort_idx": lambda v: v.b[np.argsort(v.a)],
    "rank": lambda v: np.argsort(np.argsort(v.a)),
    "bool_any_idx": lambda v: v.A[:, (v.A > 0).any(axis=0)].shape[1],
    "sum_where": lambda v: np.sum(v.a, where=v.a > 0),
    "min_initial": lambda v: np.min(v.a, initial=0.0),
    "max_where": lambda v: np.max(v.a, where=v.a > 0, initial=-5.0),
    "polyval": lambda v: np.polyval([1, 2, 3], v.s),
    "cross": lambda v: np.cross(v.a, v.b),
    "triu_idx": lambda v: v.S[np.triu_indices(2)],
    "array_split": lambda v: [x.sum() for x in np.array_split(v.a, 2)],
    "pad": lambda v: np.pad(v.a, 1),
    "bincount": lambda v: np.bincount((v.a > 0).astype(int), minlength=2),
    "histogram": lambda v: np.digitize(v.a, [0.0]),
    "np_min_list": lambda v: np.min([v.s, v.t]),
    "np_max_list": lambda v: np.max([v.s, v.t]),
    "np_array_of_bool": lambda v: np.array([x > 0 for x in v.a]),
    "mask_list": lambda v: v.a[[x > 0 for x in v.a]],
    "mask_arr_list": lambda v: v.a[np.array([x > 0 for x in v.a])],
    "bool_array_and": lambda v: np.array([x > 0 for x in v.a]) & (v.b > 0),
    "idx_from_list": lambda v: v.a[[i for i, x in enumerate(v.b) if x > 0]],
    "list_comp_cond": lambda v: [x for x in v.a if not x > 0],
    "isinstance_real": lambda v: isinstance(v.s, (int, float, np.floating)),
    "np_number": lambda v: np.issubdtype(type(v.s), np.number),
    
    "ndim": lambda v: np.ndim(v.s),
    "len": lambda v: len(v.A),
    "shape": lambda v: v.A.shape,
    "size": lambda v: np.size(v.A),
    "cholesky": lambda v: np.linalg.cholesky(np.array([[2.0, 1.0], [1.0, 3.0]]))[1, 0] * v.s,
    "logaddexp": lambda v: np.logaddexp(0, v.a * 0),
    "maximum3": lambda v: functools.reduce(np.maximum, [v.a, v.b, 0]),
    "float_power": lambda v: np.float_power(v.a, 2),
    "positive": lambda v: np.positive(v.a),
    "isclose_zero": lambda v: np.isclose(v.a, 0),
    "math_dist": lambda v: math.dist(v.a, v.b),
    "math_hypot": lambda v: math.hypot(v.s, v.t),
    "nan_min": lambda v: np.min(v.q),
    "nan_max": lambda v: v.q.max(),
    "nan_nanmin": lambda v: np.nanmin(v.q),
    "nan_nanmax": lambda v: np.nanmax(v.q),
    "nan_argmin": lambda v: np.argmin(v.q),
    "nan_nanargmin": lambda v: np.nanargmin(v.q),
    "nan_nanargmax": lambda v: np.nanargmax(v.q),
    "nan_minimum": lambda v: np.minimum(v.q, v.a),
    "nan_fmin": lambda v: np.fmin(v.q, v.a),
    "nan_fmax": lambda v: np.fmax(v.a, v.q),
    "nan_mean": lambda v: np.mean(v.q),
    "nan_nanmean": lambda v: np.nanmean(v.q),
    "nan_nansum": lambda v: np.nansum(v.q),
    "nan_sum": lambda v: v.q.sum(),
    "nan_argsort": lambda v: np.argsort(v.q),
    "nan_sort": lambda v: np.sort(v.q),
    "nan_clip": lambda v: np.clip(v.q, -1, 1),
    "nan_isfinite": lambda v: np.isfinite(v.q),
    "nan_mask": lambda v: v.q[~np.isnan(v.q)],
    "nan_all": lambda v: np.isfinite(v.q).all(),
    "nan_cmp": lambda v: v.q > v.a,
    "nan_cmp2": lambda v: v.q <= v.a,
    "nan_eq": lambda v: v.q == v.q,
    "nan_ne": lambda v: v.q != v.q,
    "nan_bimin": lambda v: min(v.q),
    "nan_bimax": lambda v: max(v.q),
    "nan_where": lambda v: np.where(np.isnan(v.q), 0.0, v.q),
    "nan_num": lambda v: np.nan_to_num(v.q, nan=-1.0),
    "nan_ptp": lambda v: np.ptp(v.q),
    "nan_sign": lambda v: np.sign(v.q),
    "nan_arith": lambda v: v.q * 2 + v.a,
    "inf_min": lambda v: np.min(v.w),
    "inf_max": lambda v: np.max(v.w),
    "inf_argmax": lambda v: np.argmax(v.w),
    "inf_clip": lambda v: np.clip(v.w, -1, 1),
    "inf_isfinite": lambda v: np.isfinite(v.w),
    "inf_isinf": lambda v: np.isinf(v.w),
    "inf_sort": lambda v: np.sort(v.w),
    "inf_argsort": lambda v: np.argsort(v.w),
    "inf_cmp": lambda v: v.w > v.a,
    "inf_arith": lambda v: v.w * 2 + v.a,
    "inf_neg": lambda v: -v.w,
    "inf_div": lambda v: v.p / v.w,
    "inf_minimum": lambda v: np.minimum(v.w, v.a),
    "average_ax": lambda v: np.average(v.A, axis=1, weights=v.p),
    "average_ax0": lambda v: np.average(v.A, axis=0),
    "std_ax": lambda v: np.std(v.A, axis=0),
    "var_kd": lambda v: np.var(v.A, axis=1, keepdims=True),
    "cumsum_ax": lambda v: np.cumsum(v.A, axis=1),
    "cumsum_flat": lambda v: np.cumsum(v.A),
    "argmax_flat": lambda v: np.argmax(v.A),
    "unravel": lambda v: np.unravel_index(np.argmax(v.A), v.A.shape),
    "sum_kd": lambda v: np.sum(v.A, axis=1, keepdims=True),
    "sum_tuple": lambda v: np.sum(v.A, axis=(0, 1)),
    "prod_ax": lambda v: np.prod(v.A, axis=0),
    "unique_idx": lambda v: np.unique(v.a, return_index=True)[1],
    "unique_ax": lambda v: np.unique(v.A, axis=0),
    "searchsorted_r": lambda v: np.searchsorted(np.sort(v.a), v.s, side="right"),
    "lexsort3": lambda v: np.lexsort(v.A),
    "solve_tri": lambda v: scipy.linalg.solve_triangular(np.array([[2.0, 0.0], [1.0, 3.0]]), v.a[:2], lower=True),
    "isinf_list": lambda v: np.isinf([v.s, v.t]).any(),
    "round_half": lambda v: np.round(np.floor(v.a) + 0.5),
    "int_neg": lambda v: int(-abs(v.s)),
    "neg_mod": lambda v: -v.n % 3,
    "int_div": lambda v: v.n / 2,
    "int_pow": lambda v: v.n ** 2,
    "pow_n": lambda v: 2 ** v.n,
    "float_floordiv": lambda v: v.s // 0.5,
    "np_int": lambda v: np.int64(v.n) + 1,
    "bool_not": lambda v: not v.s > 0,
    "abs_diff": lambda v: abs(v.a - v.b).max(),
    "scalar_arr_cmp": lambda v: v.s > v.a,
    "min_axis_none": lambda v: v.A.min(axis=None),
    "argsort_ax0": lambda v: np.argsort(v.A, axis=0),
    "all_kd": lambda v: np.all(v.A > 0, axis=1, keepdims=True),
    "any_empty": lambda v: np.any(v.a[:0] > 0),
    "all_empty": lambda v: np.all(v.a[:0] > 0),
    "sum_empty": lambda v: np.sum(v.a[:0]),
    "concat_empty": lambda v: np.concatenate([v.a[:0], v.b]),
    "isclose_arr": lambda v: np.isclose(v.a, v.b, atol=0.5, rtol=0),
    "dom": lambda v: (v.a <= v.b).all() and (v.a < v.b).any(),
    "dom_mat": lambda v: np.all(v.A[:, None] <= v.A[None], axis=-1) & np.any(v.A[:, None] < v.A[None], axis=-1),
    "norm_sq": lambda v: np.linalg.norm(v.a - v.b) ** 2,
    "cdist": lambda v: np.sqrt(((v.A[:, None, :] - v.A[None, :, :]) ** 2).sum(-1)),
    "sub_at": lambda v: _subat(v.a),
    "del_list": lambda v: _dellist(v.a),
    "pop_list": lambda v: _poplist(v.a),
    "extend_list": lambda v: _ext(v.a, v.b),
    "list_index": lambda v: list(v.a).index(v.a.max()),
    "list_count": lambda v: [v.s > 0, v.t > 0].count(True),
    "list_remove": lambda v: _rem(v.a),
    "np_take_ax": lambda v: np.take(v.A, [1, 0], axis=1),
    "flat": lambda v: list(v.A.flat),
    "iter_rows": lambda v: [r.sum() for r in v.A],
    "zip_star": lambda v: [x for x, *_ in zip(*v.A)],
    "dict_comp": lambda v: {str(i): x for i, x in enumerate(v.a)},
    "star_args": lambda v: (lambda *xs: sum(xs))(*v.a),
    "kwargs": lambda v: (lambda **k: k["x"] - k["y"])(x=v.s, y=v.t),
    "partial": lambda v: functools.partial(operator.sub, v.s)(v.t),
    "lambda_default": lambda v: [f() for f in [lambda x=x: x for x in v.a]],
    "product": lambda v: [x * y for x, y in itertools.product(v.a[:2], v.b[:2])],
    "combinations": lambda v: [x < y for x, y in itertools.combinations(v.a, 2)],
    "pairwise": lambda v: [y - x for x, y in itertools.pairwise(v.a)],
    "any_map": lambda v: any(map(lambda x: x > 2, v.a)),
    "max_enum": lambda v: max(enumerate(v.a), key=lambda t: t[1])[0],
    "min_tuple": lambda v: min((x, i) for i, x in enumerate(v.a))[1],
    "max_op": lambda v: max(enumerate(v.a), key=operator.itemgetter(1))[0],
    "sorted_zip": lambda v: [y for _, y in sorted(zip(v.a, v.b), key=lambda t: t[0])],
    "tuple_cmp": lambda v: (v.s, v.t) < (v.t, v.s),
    "list_eq": lambda v: list(v.a) == list(v.b),
    "tuple_eq": lambda v: tuple(v.a) == tuple(v.a),
    "set_of": lambda v: len({v.n, 1}),
    "sum_start": lambda v: sum(v.a, v.s),
    "bool_or": lambda v: v.n or 5,
    "and_val": lambda v: v.n and 7,
}
