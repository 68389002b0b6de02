"""A numpy stand-in that keeps symbolic values symbolic.

Everything not listed here is numpy itself (object arrays run the ordinary numpy loops
over the proxies, so comparisons fork); overridden functions are those where numpy would
force a machine float.
"""
from __future__ import annotations

import math

import numpy as _np

from .core import (
    And,
    Fraction,
    Ite,
    Max,
    Min,
    Or,
    SymBool,
    SymInt,
    SymReal,
    _rv,
    ctx,
    has_sym,
    is_sym,
    mkbool,
    real_term,
    to_frac,
    z3,
)


class SymArray(_np.ndarray):
    """Object array whose float casts keep symbolic entries."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _floaty(dtype) and has_sym(_np.asarray(self)):
            return self.copy()
        if self.dtype == object and dtype is not object and not has_sym(_np.asarray(self)):
            return _np.array(self.tolist(), dtype=dtype)
        return super().astype(dtype, *a, **k)

    def round(self, decimals=0, out=None):
        return _round(self, decimals)

    def all(self, axis=None, *a, **k):
        if axis is None and self.dtype == object:
            return And(list(self.flat))
        return super().all(axis, *a, **k)

    def any(self, axis=None, *a, **k):
        if axis is None and self.dtype == object:
            return Or(list(self.flat))
        return super().any(axis, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SymArray) if arr.dtype == object else _np.asarray(arr)

    def __reduce__(self):
        return (_mk, (self.tolist(), self.shape))

    def __deepcopy__(self, memo):
        return self.copy()


def _mk(lst, shape):
    a = _np.empty(shape, dtype=object)
    flat = _np.array(lst, dtype=object).reshape(-1) if shape != () else [lst]
    for i, v in zip(_np.ndindex(shape), flat):
        a[i] = v
    return a.view(SymArray)


def _floaty(dtype):
    try:
        return _np.dtype(dtype).kind in "fiu"
    except TypeError:
        return False


def _isfloat(dtype):
    if dtype is None:
        return True
    try:
        return _np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _obj(shape, fill):
    a = _np.empty(shape, dtype=object)
    a[...] = fill
    return a.view(SymArray)


def _view(a):
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return a.view(SymArray)
    return a


def array(x, dtype=None, *a, **k):
    if has_sym(x) and (dtype is None or _floaty(dtype)):
        return _np.array(x, dtype=object, *a, **k).view(SymArray)
    if isinstance(x, SymArray) and (dtype is None or _isfloat(dtype)):
        return _np.array(x, dtype=object, *a, **k).view(SymArray)
    return _view(_np.array(x, dtype, *a, **k) if dtype is not None else _np.array(x, *a, **k))


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray) and (dtype is None or _isfloat(dtype)):
        return x
    return array(x, dtype)


def zeros(shape, dtype=None, **k):
    return _obj(shape, 0.0) if _isfloat(dtype) else _np.zeros(shape, dtype)


def ones(shape, dtype=None, **k):
    return _obj(shape, 1.0) if _isfloat(dtype) else _np.ones(shape, dtype)


def empty(shape, dtype=None, **k):
    return _obj(shape, 0.0) if _isfloat(dtype) else _np.empty(shape, dtype)


def full(shape, fill_value, dtype=None, **k):
    v = fill_value
    if has_sym(v) or _isfloat(dtype) and not isinstance(v, (bool, int, _np.integer)):
        return _obj(shape, v)
    return _np.full(shape, v, dtype)


def zeros_like(a, dtype=None, **k):
    a = _np.asarray(a)
    if dtype is None and a.dtype.kind in "iub":
        return _np.zeros_like(a)
    return zeros(a.shape, dtype)


def ones_like(a, dtype=None, **k):
    a = _np.asarray(a)
    if dtype is None and a.dtype.kind in "iub":
        return _np.ones_like(a)
    return ones(a.shape, dtype)


def full_like(a, fill_value, dtype=None, **k):
    v = fill_value
    return full(_np.asarray(a).shape, v, dtype)


def _oarr(x):
    if isinstance(x, _np.ndarray):
        return x
    if has_sym(x):
        return _np.array(x, dtype=object)
    return _np.asarray(x)


def _map1(fn):
    def f(x, *a, **k):
        if is_sym(x):
            return fn(x, *a, **k)
        arr = _oarr(x)
        if arr.dtype != object:
            return None
        if arr.ndim == 0:
            return fn(arr.item(), *a, **k)
        out = _np.empty(arr.shape, dtype=object)
        for i in _np.ndindex(arr.shape):
            out[i] = fn(arr[i], *a, **k)
        return out.view(SymArray)

    return f


def _lift1(npfn, symfn, outbool=False):
    m = _map1(lambda v: symfn(v) if is_sym(v) else npfn(v))

    def f(x, *a, **k):
        if is_sym(x):
            return symfn(x)
        arr = _oarr(x)
        if arr.dtype != object:
            return npfn(x, *a, **k)
        if not has_sym(arr):
            try:
                return npfn(_np.array(arr.tolist(), dtype=float), *a, **k)
            except (TypeError, ValueError):
                return npfn(arr, *a, **k)
        r = m(arr)
        if outbool and isinstance(r, _np.ndarray):
            if not has_sym(r):
                return _np.array(r.tolist(), dtype=bool).reshape(r.shape)
        return r

    f.__name__ = npfn.__name__
    return f


log = _lift1(_np.log, lambda v: v.log())
log10 = _lift1(_np.log10, lambda v: SymReal(real_term(v)).log10())
log1p = _lift1(_np.log1p, lambda v: SymReal(real_term(v)).log1p())
exp = _lift1(_np.exp, lambda v: v.exp())
expm1 = _lift1(_np.expm1, lambda v: SymReal(real_term(v)).expm1())
sqrt = _lift1(_np.sqrt, lambda v: v.sqrt())
square = _lift1(_np.square, lambda v: v * v)
absolute = _lift1(_np.abs, abs)
negative = _lift1(_np.negative, lambda v: -v)
sign = _lift1(_np.sign, lambda v: Ite(v > 0, 1.0, Ite(v < 0, -1.0, 0.0)))
isnan = _lift1(_np.isnan, lambda v: False, True)
isfinite = _lift1(_np.isfinite, lambda v: True, True)
isinf = _lift1(_np.isinf, lambda v: False, True)
floor = _lift1(_np.floor, lambda v: v.floor())
ceil = _lift1(_np.ceil, lambda v: v.ceil())
float64 = _np.float64


def logical_not(x, *a, **k):
    if isinstance(x, SymBool):
        return ~x
    return _np.logical_not(x, *a, **k)


def _round(x, decimals=0, out=None):
    if is_sym(x):
        return x.__round__(decimals)
    arr = _oarr(x)
    if arr.dtype != object:
        return _np.round(x, decimals)
    out = _np.empty(arr.shape, dtype=object)
    for i in _np.ndindex(arr.shape):
        v = arr[i]
        out[i] = v.__round__(decimals) if is_sym(v) else _np.round(v, decimals)
    return out.view(SymArray)


def _isclose1(a, b, rtol, atol, equal_nan=False):
    if not (is_sym(a) or is_sym(b)):
        return bool(_np.isclose(a, b, rtol, atol, equal_nan))
    for u, v in ((a, b), (b, a)):
        if isinstance(u, (float, _np.floating)) and not math.isfinite(u):
            return False
    d = real_term(a) - real_term(b)
    tb = real_term(b)
    lim = _rv(to_frac(atol)) if not is_sym(atol) else real_term(atol)
    if is_sym(rtol) or rtol != 0:
        ab = z3.If(tb >= 0, tb, -tb)
        lim = lim + (real_term(rtol) if is_sym(rtol) else _rv(to_frac(rtol))) * ab
    return mkbool(z3.And(d <= lim, -d <= lim))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        aa, bb = _oarr(a), _oarr(b)
        if aa.dtype == object:
            a = _np.array(aa.tolist(), dtype=float)
        if bb.dtype == object:
            b = _np.array(bb.tolist(), dtype=float)
        return _np.isclose(a, b, rtol, atol, equal_nan)
    aa, bb = _np.broadcast_arrays(
        _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
    )
    if aa.ndim == 0:
        return _isclose1(aa.item(), bb.item(), rtol, atol, equal_nan)
    out = _np.empty(aa.shape, dtype=object)
    for i in _np.ndindex(aa.shape):
        out[i] = _isclose1(aa[i], bb[i], rtol, atol, equal_nan)
    return out.view(SymArray)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    if isinstance(r, _np.ndarray):
        return And(list(r.flat)) if r.size else True
    return r


def all_(x, axis=None, *a, **k):
    if isinstance(x, SymBool):
        return x
    arr = _oarr(x)
    if arr.dtype == object and axis is None:
        return And(list(arr.flat))
    return _np.all(x, axis, *a, **k)


def any_(x, axis=None, *a, **k):
    if isinstance(x, SymBool):
        return x
    arr = _oarr(x)
    if arr.dtype == object and axis is None:
        return Or(list(arr.flat))
    return _np.any(x, axis, *a, **k)


def _bc2(fn, npfn):
    def f(a, b, *r, **k):
        if not has_sym(a) and not has_sym(b):
            return _view(npfn(a, b, *r, **k))
        aa, bb = _np.broadcast_arrays(
            _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        )
        if aa.ndim == 0:
            return fn(aa.item(), bb.item())
        out = _np.empty(aa.shape, dtype=object)
        for i in _np.ndindex(aa.shape):
            out[i] = fn(aa[i], bb[i])
        return out.view(SymArray)

    return f


maximum = _bc2(lambda a, b: Max(a, b), _np.maximum)
minimum = _bc2(lambda a, b: Min(a, b), _np.minimum)
fmax, fmin = maximum, minimum


def _red(fn, npfn):
    def f(x, axis=None, *a, **k):
        arr = _oarr(x)
        if arr.dtype == object and axis is None and has_sym(arr) and not a and not k:
            return fn(list(arr.flat))
        return npfn(x, axis, *a, **k)

    return f


amax = _red(lambda l: Max(l), _np.max)
amin = _red(lambda l: Min(l), _np.min)


def clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def nan_to_num(x, *a, **k):
    if has_sym(x):
        return x
    return _np.nan_to_num(x, *a, **k)


def dot(a, b, *r, **k):
    if isinstance(a, SymPinv):
        return a.apply(b)
    if has_sym(a) or has_sym(b):
        return _view(_np.dot(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object)))
    return _np.dot(_defloat(a), _defloat(b), *r, **k)


def matmul(a, b, *r, **k):
    if isinstance(a, SymPinv):
        return a.apply(b)
    aa, bb = _np.asarray(a), _np.asarray(b)
    if aa.dtype == object or bb.dtype == object:
        return _view(_np.matmul(aa.astype(object), bb.astype(object)))
    return _np.matmul(a, b, *r, **k)


def _defloat(x):
    arr = _oarr(x)
    if arr.dtype == object and not has_sym(arr):
        try:
            return _np.array(arr.tolist(), dtype=float)
        except (TypeError, ValueError):
            return x
    return x


def mean(x, axis=None, *a, **k):
    return _np.mean(_defloat(x), axis, *a, **k)


def unique(x, *a, **k):
    return _np.unique(_defloat(x), *a, **k)


def isin(x, y, *a, **k):
    if has_sym(x) or has_sym(y):
        xa = _np.asarray(x, dtype=object)
        ya = list(_np.asarray(y, dtype=object).flat)
        out = _np.zeros(xa.shape, dtype=bool)
        for i in _np.ndindex(xa.shape):
            out[i] = bool(Or([xa[i] == v for v in ya])) if ya else False
        return out
    return _np.isin(_defloat(x), _defloat(y), *a, **k)


def where(c, *a, **k):
    if a and isinstance(c, _np.ndarray) and c.dtype == object or isinstance(c, SymBool):
        x, y = a
        ca, xa, ya = _np.broadcast_arrays(
            _np.asarray(c, dtype=object),
            _np.asarray(x, dtype=object),
            _np.asarray(y, dtype=object),
        )
        if ca.ndim == 0:
            return Ite(ca.item(), xa.item(), ya.item())
        out = _np.empty(ca.shape, dtype=object)
        for i in _np.ndindex(ca.shape):
            out[i] = Ite(ca[i], xa[i], ya[i])
        return out.view(SymArray)
    if isinstance(c, _np.ndarray) and c.dtype == object:
        c = _np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
    return _np.where(c, *a, **k)


def argwhere(c):
    c = _np.asarray(c)
    if c.dtype == object:
        c = _np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
    return _np.argwhere(c)


def nonzero(c):
    c = _np.asarray(c)
    if c.dtype == object:
        c = _np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
    return _np.nonzero(c)


def count_nonzero(c, *a, **k):
    c = _np.asarray(c)
    if c.dtype == object:
        c = _np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
    return _np.count_nonzero(c, *a, **k)


def array_equal(a, b, **k):
    a, b = _np.asarray(a), _np.asarray(b)
    if a.shape != b.shape:
        return False
    if has_sym(a) or has_sym(b):
        return And([x == y for x, y in zip(a.flat, b.flat)])
    return _np.array_equal(a, b, **k)


def concatenate(arrs, *a, **k):
    return _view(_np.concatenate(arrs, *a, **k))


def append(arr, v, axis=None):
    return _view(_np.append(arr, v, axis=axis))


# ---------------------------------------------------------------- linear algebra


def _fracmat(A):
    A = _np.asarray(A)
    return [[to_frac(v).limit_denominator(10**9) for v in row] for row in A.tolist()]


def _rref(M):
    M = [r[:] for r in M]
    rows, cols = len(M), len(M[0]) if M else 0
    piv = []
    r = 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        pv = M[r][c]
        M[r] = [x / pv for x in M[r]]
        for i in range(rows):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == rows:
            break
    return M, piv


def exact_rank(A):
    return len(_rref(_fracmat(A))[1])


def _inv(M):
    n = len(M)
    aug = [M[i] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    R, piv = _rref(aug)
    if piv[:n] != list(range(n)):
        raise _np.linalg.LinAlgError("Singular matrix")
    return [row[n:] for row in R]


def _mm(A, B):
    return [[sum((a * b for a, b in zip(r, c)), Fraction(0)) for c in zip(*B)] for r in A]


def _T(A):
    return [list(c) for c in zip(*A)]


def exact_pinv(A):
    """Moore-Penrose inverse in rational arithmetic (full-rank factorisation)."""
    M = _fracmat(A)
    R, piv = _rref(M)
    k = len(piv)
    if k == 0:
        return [[Fraction(0)] * len(M) for _ in range(len(M[0]))]
    B = [[row[c] for c in piv] for row in M]  # m x k
    C = R[:k]  # k x n
    Bt, Ct = _T(B), _T(C)
    X = _mm(Ct, _inv(_mm(C, Ct)))
    Y = _mm(_inv(_mm(Bt, B)), Bt)
    return _mm(X, Y)


class LinalgShim:
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(self, n):
        return getattr(_np.linalg, n)

    @staticmethod
    def pinv(A, *a, **k):
        return CONFIG["pinv"](A, *a, **k)

    @staticmethod
    def matrix_rank(A, *a, **k):
        return CONFIG["matrix_rank"](A, *a, **k)

    @staticmethod
    def norm(x, ord=None, axis=None, **k):
        if has_sym(x):
            arr = _np.asarray(x, dtype=object)
            if axis is None and arr.ndim == 1:
                if ord in (None, 2):
                    return SymReal(real_term(sum(v * v for v in arr))).sqrt()
                if ord == 1:
                    return sum(abs(v) for v in arr)
                if ord == _np.inf:
                    return Max([abs(v) for v in arr])
            if axis is not None and arr.ndim == 2 and ord in (None, 2):
                rows = arr if axis in (1, -1) else arr.T
                return array(
                    [SymReal(real_term(sum(v * v for v in r))).sqrt() for r in rows]
                )
        return _np.linalg.norm(_defloat(x), ord, axis, **k)

    @staticmethod
    def lstsq(A, b, *a, **k):
        x = matmul(CONFIG["pinv"](A), b)
        return x, None, CONFIG["matrix_rank"](A), None

    @staticmethod
    def solve(A, b, *a, **k):
        if not has_sym(A):
            I = _inv(_fracmat(A))
            return matmul(_fobj(I), _np.asarray(b, dtype=object))
        return _np.linalg.solve(A, b)

    @staticmethod
    def inv(A, *a, **k):
        if not has_sym(A):
            return _fobj(_inv(_fracmat(A)))
        return _np.linalg.inv(A)

    @staticmethod
    def det(A, *a, **k):
        arr = _np.asarray(A)
        if arr.dtype == object:
            return _det([list(r) for r in arr.tolist()])
        return _np.linalg.det(A)


def _det(M):
    if len(M) == 1:
        return M[0][0]
    t = 0
    for j, v in enumerate(M[0]):
        if not is_sym(v) and v == 0:
            continue
        t = t + (-1) ** j * v * _det([r[:j] + r[j + 1 :] for r in M[1:]])
    return t


def _fobj(M):
    a = _np.empty((len(M), len(M[0])), dtype=object)
    for i, r in enumerate(M):
        for j, v in enumerate(r):
            a[i, j] = float(v)
    return a.view(SymArray)


class SymPinv:
    """pinv(A) of a symbolic matrix, known only through pinv(A) @ b (least squares)."""

    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, A):
        self.A = _np.asarray(A, dtype=object)
        self.shape = self.A.shape[::-1]

    def __matmul__(self, b):
        return self.apply(b)

    dot = __matmul__

    def apply(self, b):
        b = _np.asarray(b, dtype=object)
        if b.ndim == 1:
            return self._vec(b)
        cols = [self._vec(b[:, j]) for j in range(b.shape[1])]
        return _np.array(cols, dtype=object).T.view(SymArray)

    def _vec(self, b):
        A, c = self.A, ctx()
        m, n = A.shape
        x = [c.fresh_real("x") for _ in range(n)]
        Ax = [sum((A[i, j] * x[j] for j in range(n)), 0) for i in range(m)]
        res = [Ax[i] - b[i] for i in range(m)]
        c._fresh += 1
        flag = z3.Bool(f"!consistent{c._fresh}")
        if c.branch(flag):
            for r in res:
                c.assume(r == 0)
        else:
            # least squares with non-zero residual: A^T (A x - b) = 0
            for j in range(n):
                c.assume(sum((A[i, j] * res[i] for i in range(m)), 0) == 0)
            c.assume(Or([r != 0 for r in res]))
        if CONFIG.get("pinv_min_norm") or n > m:
            y = [c.fresh_real("y") for _ in range(m)]
            for j in range(n):
                c.assume(x[j] == sum((A[i, j] * y[i] for i in range(m)), 0))
        return _np.array(x, dtype=object).view(SymArray)


def _pinv_default(A, *a, **k):
    if has_sym(A):
        return SymPinv(A)
    return _fobj(exact_pinv(A))


def _rank_default(A, *a, **k):
    if has_sym(A):
        return sym_rank(A)
    return exact_rank(A)


def sym_rank(A):
    """Rank by elimination, forking on whether each pivot is zero."""
    M = [list(r) for r in _np.asarray(A, dtype=object).tolist()]
    rows, cols = len(M), len(M[0])
    r = 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if bool(M[i][c] != 0)), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, rows):
            if not is_sym(M[i][c]) and M[i][c] == 0:
                continue
            f, g = M[i][c], M[r][c]
            M[i] = [x * g - y * f for x, y in zip(M[i], M[r])]
        r += 1
        if r == rows:
            break
    return r


CONFIG = {"pinv": _pinv_default, "matrix_rank": _rank_default}


class NpShim:
    """Looks like the numpy module."""

    linalg = LinalgShim()
    ndarray = _np.ndarray
    float64 = _np.float64

    def __getattr__(self, n):
        return getattr(_np, n)


for _n, _f in {
    "array": array,
    "asarray": asarray,
    "asanyarray": asarray,
    "zeros": zeros,
    "ones": ones,
    "empty": empty,
    "full": full,
    "zeros_like": zeros_like,
    "ones_like": ones_like,
    "empty_like": zeros_like,
    "full_like": full_like,
    "log": log,
    "log10": log10,
    "log1p": log1p,
    "exp": exp,
    "expm1": expm1,
    "sqrt": sqrt,
    "square": square,
    "abs": absolute,
    "absolute": absolute,
    "fabs": absolute,
    "negative": negative,
    "sign": sign,
    "isnan": isnan,
    "isfinite": isfinite,
    "isinf": isinf,
    "floor": floor,
    "ceil": ceil,
    "round": _round,
    "around": _round,
    "isclose": isclose,
    "allclose": allclose,
    "all": all_,
    "any": any_,
    "maximum": maximum,
    "minimum": minimum,
    "fmax": fmax,
    "fmin": fmin,
    "max": amax,
    "min": amin,
    "amax": amax,
    "amin": amin,
    "clip": clip,
    "nan_to_num": nan_to_num,
    "dot": dot,
    "matmul": matmul,
    "mean": mean,
    "unique": unique,
    "isin": isin,
    "where": where,
    "argwhere": argwhere,
    "nonzero": nonzero,
    "count_nonzero": count_nonzero,
    "array_equal": array_equal,
    "concatenate": concatenate,
    "append": append,
    "logical_not": logical_not,
}.items():
    setattr(NpShim, _n, staticmethod(_f))

SHIM = NpShim()


class MathShim:
    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not (is_sym(a) or is_sym(b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return abs(a - b) <= Max(rel_tol * Max(abs(a), abs(b)), abs_tol)

    @staticmethod
    def fsum(xs):
        xs = list(xs)
        return sum(xs) if has_sym(xs) else math.fsum(xs)

    @staticmethod
    def prod(xs, *, start=1):
        for x in xs:
            start = start * x
        return start

    @staticmethod
    def fabs(x):
        return abs(x)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    @staticmethod
    def exp(x):
        return x.exp() if is_sym(x) else math.exp(x)

    @staticmethod
    def log(x, *b):
        if is_sym(x):
            r = x.log()
            return r / math.log(b[0]) if b else r
        return math.log(x, *b)

    @staticmethod
    def log10(x):
        return x.log() / math.log(10) if is_sym(x) else math.log10(x)

    @staticmethod
    def log1p(x):
        return (x + 1).log() if is_sym(x) else math.log1p(x)

    @staticmethod
    def expm1(x):
        return x.exp() - 1 if is_sym(x) else math.expm1(x)

    @staticmethod
    def sqrt(x):
        return x.sqrt() if is_sym(x) else math.sqrt(x)


MATH = MathShim()


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymReal, SymInt))

    def __subclasscheck__(cls, s):
        return issubclass(s, (float, SymReal))


class FloatShim(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.t))
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return FloatShim(x.item())
        return float(x)
